// ---- session set-up (X3DH) and message processing (protocol/session)
def chainPb(pub bytes, priv bytes, ck bytes, i int) v1.SessionStructure_Chain = v1.SessionStructure_Chain{SenderRatchetKey: pub, SenderRatchetKeyPrivate: priv, ChainKey: some(v1.SessionStructure_Chain_ChainKey{Index: i, Key: ck})}

// the four (or three) agreements of X3DH, as computed by either side
def xSecret(d1 bytes, d2 bytes, d3 bytes, d4 opt<bytes>) bytes = rep(255, 32) ++ d1 ++ d2 ++ d3 ++ ite(d4 == nil, [], val(d4))
// Alice: identity and base private keys; Bob's signed pre-key, identity and one-time public keys
def aSecret(ia bytes, ea bytes, spk bytes, ib bytes, opk opt<bytes>) bytes = xSecret(x25519(ia, spk), x25519(ea, ib), x25519(ea, spk), ite(opk == nil, nil, some(x25519(ea, val(opk)))))
// Bob: signed pre-key, identity and one-time private keys; Alice's identity and base public keys
def bSecret(spk bytes, ib bytes, opk opt<bytes>, ia bytes, ea bytes) bytes = xSecret(x25519(spk, ia), x25519(ib, ea), x25519(spk, ea), ite(opk == nil, nil, some(x25519(val(opk), ea))))
def optKey(k curve.PublicKey) opt<bytes> = ite(k == nil, nil, some(val(k).key))
def optSk(k opt<curve.KeyPair>) opt<bytes> = ite(k == nil, nil, some(skOf(val(k).privateKey)))
def aliceSecret(p ratchet.AliceParameters) bytes = aSecret(skOf(p.OurIdentityKeyPair.privateKey), skOf(val(p.OurBaseKeyPair).privateKey), val(p.TheirSignedPreKey).key, val(p.TheirIdentityKey.publicKey).key, optKey(p.TheirOneTimePreKey))
// Alice's session: root and sending chain come from a first ratchet step with her new key r
def aRoot(sec bytes, r bytes, k bytes) bytes = rkdf(ikdf(sec)[0:32], x25519(r, k))
def aSes(me identity.Key, them identity.Key, sec bytes, k bytes, r bytes) v1.SessionStructure = v1.SessionStructure{SessionVersion: 3, LocalIdentityPublic: encId(me), RemoteIdentityPublic: encId(them), RootKey: aRoot(sec, r, k)[0:32], ReceiverChains: unit(some(chainPb("\x05" ++ k, [], ikdf(sec)[32:64], 0))), SenderChain: some(chainPb("\x05" ++ pubOf(r), r, aRoot(sec, r, k)[32:64], 0))}
def aliceSes(p ratchet.AliceParameters, r bytes) v1.SessionStructure = aSes(p.OurIdentityKeyPair.identityKey, p.TheirIdentityKey, aliceSecret(p), val(p.TheirRatchetKey).key, r)
def aliceOk(p ratchet.AliceParameters, r bytes) bool = dhOk(p.OurIdentityKeyPair.privateKey, p.TheirSignedPreKey) && dhOk(val(p.OurBaseKeyPair).privateKey, p.TheirIdentityKey.publicKey) && dhOk(val(p.OurBaseKeyPair).privateKey, p.TheirSignedPreKey) && (p.TheirOneTimePreKey == nil || dhOk(val(p.OurBaseKeyPair).privateKey, p.TheirOneTimePreKey)) && x25519(r, val(p.TheirRatchetKey).key) != rep(0, 32)

contract session.initializeAliceSession(random, params) (s, err)
nilable random
modifies rand
requires params.OurBaseKeyPair != nil && params.TheirSignedPreKey != nil && params.TheirRatchetKey != nil
where r = clampF(rnd(rdOf(random), old(rand), 32))
ensures [C04] err == nil ==> s == some(session.State{session: some(aliceSes(params, r))})
ensures [C04] err == nil <==> aliceOk(params, r) && rndOk(rdOf(random), old(rand), 32)
ensures [C05,C04] err == nil ==> rand > old(rand)

def bobSecret(p ratchet.BobParameters) bytes = bSecret(skOf(val(p.OurSignedPreKeyPair).privateKey), skOf(p.OurIdentityKeyPair.privateKey), optSk(p.OurOneTimePreKeyPair), val(p.TheirIdentityKey.publicKey).key, val(p.TheirBaseKey).key)
// Bob's session: his sending chain uses the ratchet key pair (kpub, ksk)
def bSes(me identity.Key, them identity.Key, sec bytes, kpub bytes, ksk bytes) v1.SessionStructure = v1.SessionStructure{SessionVersion: 3, LocalIdentityPublic: encId(me), RemoteIdentityPublic: encId(them), RootKey: ikdf(sec)[0:32], SenderChain: some(chainPb("\x05" ++ kpub, ksk, ikdf(sec)[32:64], 0))}
def bobSes(p ratchet.BobParameters) v1.SessionStructure = bSes(p.OurIdentityKeyPair.identityKey, p.TheirIdentityKey, bobSecret(p), val(val(p.OurRatchetKeyPair).publicKey).key, skOf(val(p.OurRatchetKeyPair).privateKey))
def bobOk(p ratchet.BobParameters) bool = dhOk(val(p.OurSignedPreKeyPair).privateKey, p.TheirIdentityKey.publicKey) && dhOk(p.OurIdentityKeyPair.privateKey, p.TheirBaseKey) && dhOk(val(p.OurSignedPreKeyPair).privateKey, p.TheirBaseKey) && (p.OurOneTimePreKeyPair == nil || dhOk(val(p.OurOneTimePreKeyPair).privateKey, p.TheirBaseKey))

contract session.initializeBobSession(params) (s, err)
requires params.OurSignedPreKeyPair != nil && params.OurRatchetKeyPair != nil && params.TheirBaseKey != nil
ensures [C04] (err == nil) <==> bobOk(params)
ensures [C04] err == nil ==> s == some(session.State{session: some(bobSes(params))})

contract session.InitializeAliceSessionRecord(random, params) (rec, err)
nilable random
modifies rand
requires params.OurBaseKeyPair != nil && params.TheirSignedPreKey != nil && params.TheirRatchetKey != nil
where r = clampF(rnd(rdOf(random), old(rand), 32))
ensures [C04] err == nil ==> rec == some(session.Record{currentSession: some(session.State{session: some(aliceSes(params, r))}), previousSessions: []})
ensures [C04] err == nil <==> aliceOk(params, r) && rndOk(rdOf(random), old(rand), 32)

contract session.InitializeBobSessionRecord(params) (rec, err)
requires params.OurSignedPreKeyPair != nil && params.OurRatchetKeyPair != nil && params.TheirBaseKey != nil
ensures [C04] (err == nil) <==> bobOk(params)
ensures [C04] err == nil ==> rec == some(session.Record{currentSession: some(session.State{session: some(bobSes(params))}), previousSessions: []})

// ---- one ratchet step on receipt of a new ratchet key; r is our new private ratchet key
def stepO1(s session.State, k bytes) bytes = rkdf(ses(s).RootKey, x25519(clampF(snd(s).SenderRatchetKeyPrivate), k))
def stepO2(s session.State, k bytes, r bytes) bytes = rkdf(stepO1(s, k)[0:32], x25519(r, k))
def lastIdx(s session.State) int = ite(ckOf(snd(s).ChainKey).index > 0, ckOf(snd(s).ChainKey).index - 1, 0)
def stepSt(s session.State, k bytes, r bytes) session.State = setSes(s, ses(s) with {RootKey: stepO2(s, k, r)[0:32], ReceiverChains: dropOver(ses(s).ReceiverChains ++ unit(some(chainPb("\x05" ++ k, [], stepO1(s, k)[32:64], 0))), 5), PreviousCounter: lastIdx(s), SenderChain: some(chainPb("\x05" ++ pubOf(r), r, stepO2(s, k, r)[32:64], 0))})
// state and receiving chain key after making sure that a chain for k exists
def chainSt(s session.State, k curve.PublicKey, r bytes) session.State = ite(rcv(s, k) >= 0, s, stepSt(s, val(k).key, r))
def chainCK(s session.State, k curve.PublicKey) ratchet.ChainKey = ite(rcv(s, k) >= 0, ckOf(rcvChain(s, k).ChainKey), ratchet.ChainKey{key: stepO1(s, val(k).key)[32:64], index: 0})
// a ratchet step is possible
def stepOk(s session.State, k curve.PublicKey, r bytes) bool = len(ses(s).RootKey) == 32 && sckOk(s) && len(snd(s).SenderRatchetKeyPrivate) == 32 && x25519(clampF(snd(s).SenderRatchetKeyPrivate), val(k).key) != rep(0, 32) && x25519(r, val(k).key) != rep(0, 32)

contract (*session.Session).chainKey(s, random, state, theirEphemeral) (ck, err)
nilable random
modifies state, rand
where r = clampF(rnd(rdOf(random), old(rand), 32))
ensures [C01,C04] err == nil ==> state == chainSt(old(state), theirEphemeral, r)
ensures [C01,C04] err == nil ==> ck == chainCK(old(state), theirEphemeral)
ensures [C05,C04] err == nil ==> rand >= old(rand) + ite(rcv(old(state), theirEphemeral) >= 0, 0, 1)
ensures [C03,C04] rcv(old(state), theirEphemeral) >= 0 && len(ckOf(rcvChain(old(state), theirEphemeral).ChainKey).key) == 32 ==> err == nil
ensures [C03,C04] rcv(old(state), theirEphemeral) < 0 && stepOk(old(state), theirEphemeral, r) && rndOk(rdOf(random), old(rand), 32) ==> err == nil

// ---- message keys of a receiving chain: skipped ones are kept, used ones are gone
lemma firstChainUpd: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, j int, c opt<v1.SessionStructure_Chain> :: {firstChain(upd(l, j, c), key)} (0 <= j && j < len(l) && c != nil && l[j] != nil && val(c).SenderRatchetKey == val(l[j]).SenderRatchetKey) ==> firstChain(upd(l, j, c), key) == firstChain(l, key)

// keys kept after skipping n messages from chain key k at index i
rec pushTo(l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int) list<opt<v1.SessionStructure_Chain_MessageKey>> = l | pushMK(prev, mkOf(ckAt(k, n), i + n))
// errors of the loop over skipped keys
template notDup(err error): !errIs(err, perrors.ErrDuplicateMessage)
template notNoSess(err error): !errIs(err, perrors.ErrNoCurrentSession)
template skipKeys(s session.State, c ratchet.ChainKey, k curve.PublicKey, n u32): c.index <= n && 0 <= c.index - init(c).index && c.key == ckAt(init(c).key, c.index - init(c).index) && (rcv(init(s), k) < 0 ==> s == init(s)) && (rcv(init(s), k) >= 0 ==> s == setRcv(init(s), k, rcvChain(init(s), k) with {MessageKeys: pushTo(rcvChain(init(s), k).MessageKeys, init(c).key, init(c).index, c.index - init(c).index)}))

template skipKeysN(s session.State, c ratchet.ChainKey, k curve.PublicKey, i int): 0 <= i - init(i) && c.index - init(c).index == i - init(i) && c.key == ckAt(init(c).key, i - init(i)) && (rcv(init(s), k) < 0 ==> s == init(s)) && (rcv(init(s), k) >= 0 ==> s == setRcv(init(s), k, rcvChain(init(s), k) with {MessageKeys: pushTo(rcvChain(init(s), k).MessageKeys, init(c).key, init(c).index, i - init(i))}))

contract (*session.Session).messageKeys(s, state, theirEphemeral, chainKey, counter) (mk, err)
modifies state
where i = rcv(old(state), theirEphemeral)
where c = rcvChain(old(state), theirEphemeral)
where d = counter - chainKey.index
where f = findMK(c.MessageKeys, counter, len(c.MessageKeys))
where far = d > 25000 && !(remOk(old(state)) && locOk(old(state)) && isSelf(old(state)))
ensures [C02,C03] err == perrors.ErrDuplicateMessage <==> (d < 0 && (i < 0 || f == nil))
ensures [C02,C03] err >= 0 || err == perrors.ErrDuplicateMessage
ensures [C02,C03] errIs(err, perrors.ErrDuplicateMessage) ==> err == perrors.ErrDuplicateMessage
ensures [C02,C03] err == nil && d < 0 ==> i >= 0 && f != nil && mk == mkVal(val(f), counter) && state == setRcv(old(state), theirEphemeral, c with {MessageKeys: keepMK(c.MessageKeys, counter, len(c.MessageKeys))})
ensures [C03,C02] d < 0 && i >= 0 && f != nil && mkGood(val(f)) ==> err == nil
ensures [C03,C02] err == nil ==> !far
ensures [C02,C03] err == nil && d >= 0 ==> i >= 0 && mk == mkOf(ckAt(chainKey.key, d), counter)
ensures [C02,C03] err == nil && d >= 0 ==> state == setRcv(old(state), theirEphemeral, c with {MessageKeys: pushTo(c.MessageKeys, chainKey.key, chainKey.index, d), ChainKey: some(ckPb(ratchet.ChainKey{key: ckAt(chainKey.key, d + 1), index: (counter + 1) % 4294967296}))})
ensures [C03,C02] d >= 0 && i >= 0 && !far ==> err == nil

// ---- decryption with one session state; r is the private ratchet key made if a ratchet step is needed
def dCK(s session.State, m message.Signal) ratchet.ChainKey = chainCK(s, m.senderRatchetKey)
def dChain(s session.State, m message.Signal, r bytes) v1.SessionStructure_Chain = rcvChain(chainSt(s, m.senderRatchetKey, r), m.senderRatchetKey)
def dOld(s session.State, m message.Signal) bool = m.counter < dCK(s, m).index
def dKept(s session.State, m message.Signal, r bytes) opt<v1.SessionStructure_Chain_MessageKey> = findMK(dChain(s, m, r).MessageKeys, m.counter, len(dChain(s, m, r).MessageKeys))
def dMK(s session.State, m message.Signal, r bytes) ratchet.MessageKeys = ite(dOld(s, m), mkVal(val(dKept(s, m, r)), m.counter), mkOf(ckAt(dCK(s, m).key, m.counter - dCK(s, m).index), m.counter))
def dNewChain(s session.State, m message.Signal, r bytes) v1.SessionStructure_Chain = ite(dOld(s, m), dChain(s, m, r) with {MessageKeys: keepMK(dChain(s, m, r).MessageKeys, m.counter, len(dChain(s, m, r).MessageKeys))}, dChain(s, m, r) with {MessageKeys: pushTo(dChain(s, m, r).MessageKeys, dCK(s, m).key, dCK(s, m).index, m.counter - dCK(s, m).index), ChainKey: some(ckPb(ratchet.ChainKey{key: ckAt(dCK(s, m).key, m.counter - dCK(s, m).index + 1), index: (m.counter + 1) % 4294967296}))})
def noPend(s session.State) session.State = setSes(s, ses(s) with {PendingPreKey: nil})
def dState(s session.State, m message.Signal, r bytes) session.State = noPend(setRcv(chainSt(s, m.senderRatchetKey, r), m.senderRatchetKey, dNewChain(s, m, r)))
// the message authenticates between the two identities of the state, and decrypts
def ctOk(m message.Signal, k ratchet.MessageKeys) bool = len(m.ciphertext) > 0 && len(m.ciphertext) % 16 == 0 && padOk(cbcDec(k.cipherKey, k.iv, m.ciphertext))
def dAuth(s session.State, m message.Signal, r bytes) bool = remOk(s) && locOk(s) && sigMacOk(m, dMK(s, m, r).macKey, remId(s), locId(s))
def dPlain(s session.State, m message.Signal, r bytes) bytes = unpad(cbcDec(dMK(s, m, r).cipherKey, dMK(s, m, r).iv, m.ciphertext))
def dFar(s session.State, m message.Signal) bool = m.counter - dCK(s, m).index > 25000 && !(remOk(s) && locOk(s) && isSelf(s))

// s2 is the state after decrypting m with s to pt; the new private ratchet key, if one was made, is in s2
def newPriv(s session.State) bytes = snd(s).SenderRatchetKeyPrivate
opaque authentic(s session.State, m message.Signal, pt bytes, s2 session.State) bool = m.version == verOf(s) && dAuth(s, m, newPriv(s2)) && ctOk(m, dMK(s, m, newPriv(s2))) && pt == dPlain(s, m, newPriv(s2))
opaque advances(s session.State, m message.Signal, s2 session.State) bool = (dOld(s, m) ==> dKept(s, m, newPriv(s2)) != nil) && !dFar(s, m) && rcv(chainSt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey) >= 0 && s2 == dState(s, m, newPriv(s2))
lemma advRem reveal advances: forall s session.State, m message.Signal, s2 session.State :: {advances(s, m, s2)} (s.session != nil && advances(s, m, s2)) ==> ses(s2).RemoteIdentityPublic == ses(s).RemoteIdentityPublic
// m can be delivered to state s through an existing receiving chain
opaque deliverable(s session.State, m message.Signal) bool = sndOk(s) && m.version == verOf(s) && rcv(s, m.senderRatchetKey) >= 0 && len(dCK(s, m).key) == 32 && (dOld(s, m) ==> (dKept(s, m, []) != nil && mkGood(val(dKept(s, m, []))))) && !dFar(s, m) && dAuth(s, m, []) && ctOk(m, dMK(s, m, []))
lemma deliverRem reveal deliverable: forall s session.State, m message.Signal :: {deliverable(s, m)} deliverable(s, m) ==> remOk(s) && locOk(s)
// m can be delivered to state s with a ratchet step, with new private key r
opaque stepDeliverable(s session.State, m message.Signal, r bytes) bool = sndOk(s) && m.version == verOf(s) && rcv(s, m.senderRatchetKey) < 0 && stepOk(s, m.senderRatchetKey, r) && rcv(chainSt(s, m.senderRatchetKey, r), m.senderRatchetKey) >= 0 && !dFar(s, m) && dAuth(s, m, r) && ctOk(m, dMK(s, m, r))
lemma stepRem reveal stepDeliverable: forall s session.State, m message.Signal, r bytes :: {stepDeliverable(s, m, r)} stepDeliverable(s, m, r) ==> remOk(s) && locOk(s)
// m uses a message key of state s which is gone
opaque used(s session.State, m message.Signal) bool = dOld(s, m) && (rcv(s, m.senderRatchetKey) < 0 || dKept(s, m, []) == nil)

contract (*session.Session).decryptMessageSession(s, random, state, ciphertext) (pt, err)
nilable random
modifies state, rand
reveal authentic, advances, deliverable, stepDeliverable, used
where o = old(state)
where r = clampF(rnd(rdOf(random), old(rand), 32))
ensures err >= 0 || err == perrors.ErrDuplicateMessage
ensures [C02] errIs(err, perrors.ErrDuplicateMessage) ==> err == perrors.ErrDuplicateMessage
ensures [C02] err == perrors.ErrDuplicateMessage ==> used(o, ciphertext)
ensures [C02] used(o, ciphertext) ==> err != nil
ensures [C01] err == nil ==> authentic(o, ciphertext, pt, state)
ensures [C02,C03,C21] err == nil ==> advances(o, ciphertext, state)
ensures [C03] deliverable(o, ciphertext) ==> err == nil
ensures [C03,C04] stepDeliverable(o, ciphertext, r) && rndOk(rdOf(random), old(rand), 32) ==> err == nil
ensures [C21] err == nil ==> ses(state).PendingPreKey == nil
