// ---- encryption and decryption with the stores (protocol/session/cipher.go)
def addrOf(s session.Session) address.Address = s.RemoteAddress
def recOf(s session.Session) session.Record = val(s.SessionStore.m[s.RemoteAddress])
def curOf(s session.Session) session.State = val(recOf(s).currentSession)
def encMK(s session.State) ratchet.MessageKeys = mkOf(ckOf(snd(s).ChainKey).key, ckOf(snd(s).ChainKey).index)
def encMsg(s session.State, p bytes) message.Signal = signalMsg(verOf(s) % 256, mkPub(snd(s).SenderRatchetKey[1:33]), ckOf(snd(s).ChainKey).index, ses(s).PreviousCounter, cbcEnc(encMK(s).cipherKey, encMK(s).iv, pad(p)), encMK(s).macKey, locId(s), remId(s))
def nextSnd(s session.State) session.State = setSes(s, ses(s) with {SenderChain: some(snd(s) with {ChainKey: some(ckPb(ratchet.ChainKey{key: nextCK(ckOf(snd(s).ChainKey).key), index: (ckOf(snd(s).ChainKey).index + 1) % 4294967296}))})})
def unack(s session.State) session.UnacknowledgedPreKeyMessageItems = unackOf(val(ses(s).PendingPreKey))

contract (*session.Session).EncryptMessage(s, ctx, plaintext) (m, err)
anyerror
modifies s.SessionStore, s.IdentityKeyStore
where o = old(s)
where c = curOf(old(s))
ensures [C05] err == nil ==> o.SessionStore.m[o.RemoteAddress] != nil && recOf(o).currentSession != nil && sckOk(c) && remOk(c) && locOk(c) && pubOk(snd(c).SenderRatchetKey)
ensures [C06] err == nil ==> trusts(o.IdentityKeyStore.m, o.RemoteAddress, remId(c), 1)
ensures [C04,C05,C21] err == nil ==> (ses(c).PendingPreKey == nil ==> isA(m, Signal) && asA(m, Signal) == encMsg(c, plaintext))
ensures [C21] err == nil ==> (ses(c).PendingPreKey != nil ==> isA(m, PreKey) && asA(m, PreKey) == preKeyMsg(verOf(c) % 256, ses(c).LocalRegistrationId, unack(c).preKeyID, unack(c).signedPreKeyID, unack(c).baseKey, locId(c), encMsg(c, plaintext)))
ensures [C05] err == nil ==> s.SessionStore.m == store(o.SessionStore.m, o.RemoteAddress, some(recOf(o) with {currentSession: some(nextSnd(c))}))
ensures [C06] err == nil ==> s.IdentityKeyStore.m == store(o.IdentityKeyStore.m, o.RemoteAddress, some(remId(c)))
ensures [C04,C21] o.SessionStore.m[o.RemoteAddress] != nil && recOf(o).currentSession != nil && sckOk(c) && remOk(c) && locOk(c) && pubOk(snd(c).SenderRatchetKey) && trusts(o.IdentityKeyStore.m, o.RemoteAddress, remId(c), 1) && (ses(c).PendingPreKey == nil || pubOk(val(ses(c).PendingPreKey).BaseKey)) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil
ensures [C08] err != nil ==> s.SessionStore.failed || s.IdentityKeyStore.failed || (s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m)

// ---- sessions from pre-key messages
opaque known(r session.Record, m message.PreKey) bool = (r.currentSession != nil && sameBase(val(r.currentSession), m.version, encPub(m.baseKey))) || anyBase(r.previousSessions, m.version, encPub(m.baseKey), len(r.previousSessions))
def spkRec(s session.Session, m message.PreKey) v1.SignedPreKeyRecordStructure = val(val(s.SignedPreKeyStore.m[m.signedPreKeyID]).signed)
def opkRec(s session.Session, m message.PreKey) v1.PreKeyRecordStructure = val(val(s.PreKeyStore.m[val(m.preKeyID)]).preKey)
// the keys named by the message exist
opaque keysOk(s session.Session, m message.PreKey) bool = s.SignedPreKeyStore.m[m.signedPreKeyID] != nil && preKeyOk(spkRec(s, m).PublicKey, spkRec(s, m).PrivateKey) && (m.preKeyID != nil ==> s.PreKeyStore.m[val(m.preKeyID)] != nil && preKeyOk(opkRec(s, m).PublicKey, opkRec(s, m).PrivateKey))
opaque bobState(s session.Session, m message.PreKey) session.State = session.State{session: some(bSes(s.IdentityKeyStore.self.identityKey, m.identityKey, bSecret(clampF(spkRec(s, m).PrivateKey), skOf(s.IdentityKeyStore.self.privateKey), ite(m.preKeyID == nil, nil, some(clampF(opkRec(s, m).PrivateKey))), val(m.identityKey.publicKey).key, val(m.baseKey).key), spkRec(s, m).PublicKey[1:33], clampF(spkRec(s, m).PrivateKey)) with {LocalRegistrationId: s.IdentityKeyStore.reg, RemoteRegistrationId: m.registrationID, AliceBaseKey: encPub(m.baseKey)})}
// the record with which the message inside a pre-key message is decrypted
def preRec(s session.Session, r session.Record, m message.PreKey) session.Record = ite(known(r, m), r, session.Record{currentSession: some(bobState(s, m)), previousSessions: arch(r.previousSessions, r.currentSession)})
// the session which a pre-key message asks for exists or can be made
def bobDh(s session.Session, m message.PreKey) bool = x25519(clampF(spkRec(s, m).PrivateKey), val(m.identityKey.publicKey).key) != rep(0, 32) && x25519(skOf(s.IdentityKeyStore.self.privateKey), val(m.baseKey).key) != rep(0, 32) && x25519(clampF(spkRec(s, m).PrivateKey), val(m.baseKey).key) != rep(0, 32) && (m.preKeyID != nil ==> x25519(clampF(opkRec(s, m).PrivateKey), val(m.baseKey).key) != rep(0, 32))
opaque preOk(s session.Session, r session.Record, m message.PreKey) bool = prevOk(r.previousSessions, len(r.previousSessions)) && (known(r, m) || keysOk(s, m) && bobDh(s, m))
def mono(a bool, b bool) bool = a ==> b

contract (*session.Session).ProcessPreKey(s, ctx, record, message) (id, err)
anyerror
reveal known, keysOk, bobState, preOk
modifies record, s.IdentityKeyStore, s.SignedPreKeyStore, s.PreKeyStore
where o = old(s)
ensures [C06] err == nil ==> trusts(o.IdentityKeyStore.m, o.RemoteAddress, message.identityKey, 2)
ensures [C20] err == nil ==> id == ite(known(old(record), message), nil, message.preKeyID)
ensures [C20] err == nil && !known(old(record), message) ==> keysOk(o, message)
ensures [C04,C20] err == nil ==> record == preRec(o, old(record), message)
ensures [C04,C20] trusts(o.IdentityKeyStore.m, o.RemoteAddress, message.identityKey, 2) && preOk(o, old(record), message) && !s.IdentityKeyStore.failed && !s.SignedPreKeyStore.failed && !s.PreKeyStore.failed ==> err == nil
ensures [C08] s.IdentityKeyStore.m == o.IdentityKeyStore.m && s.SignedPreKeyStore.m == o.SignedPreKeyStore.m && s.PreKeyStore.m == o.PreKeyStore.m
ensures [C08] mono(o.IdentityKeyStore.failed, s.IdentityKeyStore.failed) && mono(o.SignedPreKeyStore.failed, s.SignedPreKeyStore.failed) && mono(o.PreKeyStore.failed, s.PreKeyStore.failed)

def loaded(s session.Session) session.Record = ite(s.SessionStore.m[s.RemoteAddress] == nil, session.Record{currentSession: nil, previousSessions: []}, recOf(s))
def afterRec(s session.Session) session.Record = val(s.SessionStore.m[s.RemoteAddress])
def onlyHere(o session.Session, s session.Session) bool = s.SessionStore.m[s.RemoteAddress] != nil && s.SessionStore.m == store(o.SessionStore.m, o.RemoteAddress, s.SessionStore.m[s.RemoteAddress])
def curRem(r session.Record) identity.Key = remId(val(r.currentSession))

// a pre-key message of a trusted remote end which can be decrypted with the session it asks for
def canDeliverPre(o session.Session, m message.PreKey, rok bool, r bytes) bool = trusts(o.IdentityKeyStore.m, o.RemoteAddress, m.identityKey, 2) && preOk(o, loaded(o), m) && preRec(o, loaded(o), m).currentSession != nil && curRem(preRec(o, loaded(o), m)) == m.identityKey && (deliverable(val(preRec(o, loaded(o), m).currentSession), val(m.message)) || rok && stepDeliverable(val(preRec(o, loaded(o), m).currentSession), val(m.message), r))
contract (*session.Session).decryptPreKey(s, ctx, random, ciphertext) (pt, err)
anyerror
nilable random
reveal keysOk
modifies s.SessionStore, s.IdentityKeyStore, s.SignedPreKeyStore, s.PreKeyStore, rand
where o = old(s)
where r1 = preRec(o, loaded(o), ciphertext)
ensures [C01,C02,C03,C04] err == nil ==> onlyHere(o, s) && decrypted(r1, val(ciphertext.message), pt, afterRec(s))
ensures [C04,C03] canDeliverPre(o, ciphertext, rndOk(rdOf(random), old(rand), 32), clampF(rnd(rdOf(random), old(rand), 32))) && !s.SessionStore.failed && !s.IdentityKeyStore.failed && !s.SignedPreKeyStore.failed && !s.PreKeyStore.failed ==> err == nil && authentic(val(r1.currentSession), val(ciphertext.message), pt, val(afterRec(s).currentSession)) && advances(val(r1.currentSession), val(ciphertext.message), val(afterRec(s).currentSession))
ensures [C21] err == nil ==> ses(val(afterRec(s).currentSession)).PendingPreKey == nil
ensures [C06] err == nil ==> trusts(o.IdentityKeyStore.m, o.RemoteAddress, ciphertext.identityKey, 2) && remOk(val(afterRec(s).currentSession)) && curRem(afterRec(s)) == ciphertext.identityKey
ensures [C06] err == nil ==> s.IdentityKeyStore.m == store(o.IdentityKeyStore.m, o.RemoteAddress, some(ciphertext.identityKey))
ensures [C20] err == nil && !known(loaded(o), ciphertext) ==> keysOk(o, ciphertext)
ensures [C20] err == nil ==> s.PreKeyStore.m == ite(known(loaded(o), ciphertext) || ciphertext.preKeyID == nil, o.PreKeyStore.m, store(o.PreKeyStore.m, val(ciphertext.preKeyID), nil))
ensures [C08,C20] err == nil ==> s.SignedPreKeyStore.m == o.SignedPreKeyStore.m
ensures [C08] err != nil ==> s.SessionStore.failed || s.IdentityKeyStore.failed || s.SignedPreKeyStore.failed || s.PreKeyStore.failed || (s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m && s.PreKeyStore.m == o.PreKeyStore.m && s.SignedPreKeyStore.m == o.SignedPreKeyStore.m)
ensures [C20] err != nil && !s.PreKeyStore.failed ==> s.PreKeyStore.m == o.PreKeyStore.m

// a trusted remote end's message for the current session and a receiving chain it has
def canDeliver(o session.Session, m message.Signal) bool = o.SessionStore.m[o.RemoteAddress] != nil && recOf(o).currentSession != nil && deliverable(curOf(o), m) && trusts(o.IdentityKeyStore.m, o.RemoteAddress, remId(curOf(o)), 2)
// the same, with a message of a new ratchet key
def canDeliverStep(o session.Session, m message.Signal, r bytes) bool = o.SessionStore.m[o.RemoteAddress] != nil && recOf(o).currentSession != nil && stepDeliverable(curOf(o), m, r) && trusts(o.IdentityKeyStore.m, o.RemoteAddress, remId(curOf(o)), 2)
// the same, with an archived session; all the sessions with the remote address are with trusted identities
opaque archTrusted(ids map<address.Address, opt<identity.Key>>, a address.Address, r session.Record) bool = (r.currentSession != nil ==> trusts(ids, a, curRem(r), 2)) && (forall j int :: {r.previousSessions[j]} (0 <= j && j < len(r.previousSessions)) ==> trusts(ids, a, remId(stOf(r.previousSessions[j])), 2))
lemma decTrusted reveal decrypted reveal authentic reveal archTrusted: forall ids map<address.Address, opt<identity.Key>>, a address.Address, o session.Record, m message.Signal, pt bytes, n session.Record :: {decrypted(o, m, pt, n), archTrusted(ids, a, o)} (decrypted(o, m, pt, n) && archTrusted(ids, a, o) && (o.currentSession != nil ==> val(o.currentSession).session != nil)) ==> remOk(val(n.currentSession)) && trusts(ids, a, curRem(n), 2)
def canDeliverArch(o session.Session, m message.Signal) bool = o.SessionStore.m[o.RemoteAddress] != nil && archDeliverable(recOf(o), m) && archTrusted(o.IdentityKeyStore.m, o.RemoteAddress, recOf(o))
contract (*session.Session).decryptSignal(s, ctx, random, ciphertext) (pt, err)
anyerror
nilable random
modifies s.SessionStore, s.IdentityKeyStore, rand
where o = old(s)
ensures [C19,C03] canDeliverArch(o, ciphertext) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil
ensures [C01,C02,C03] err == nil ==> o.SessionStore.m[o.RemoteAddress] != nil && onlyHere(o, s) && decrypted(recOf(o), ciphertext, pt, afterRec(s))
ensures [C03,C19] canDeliver(o, ciphertext) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil && authentic(curOf(o), ciphertext, pt, val(afterRec(s).currentSession)) && advances(curOf(o), ciphertext, val(afterRec(s).currentSession))
ensures [C03,C04] canDeliverStep(o, ciphertext, clampF(rnd(rdOf(random), old(rand), 32))) && rndOk(rdOf(random), old(rand), 32) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil && authentic(curOf(o), ciphertext, pt, val(afterRec(s).currentSession)) && advances(curOf(o), ciphertext, val(afterRec(s).currentSession))
ensures [C21] err == nil ==> ses(val(afterRec(s).currentSession)).PendingPreKey == nil
ensures [C06] err == nil ==> remOk(val(afterRec(s).currentSession)) && trusts(o.IdentityKeyStore.m, o.RemoteAddress, curRem(afterRec(s)), 2) && s.IdentityKeyStore.m == store(o.IdentityKeyStore.m, o.RemoteAddress, some(curRem(afterRec(s))))
ensures [C08] err != nil ==> s.SessionStore.failed || s.IdentityKeyStore.failed || (s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m)

contract (*session.Session).DecryptMessage(s, ctx, random, ciphertext) (pt, err)
anyerror
nilable random
modifies s.SessionStore, s.IdentityKeyStore, s.SignedPreKeyStore, s.PreKeyStore, rand
where o = old(s)
ensures [C01,C02,C03] err == nil && isA(ciphertext, Signal) ==> onlyHere(o, s) && decrypted(recOf(o), asA(ciphertext, Signal), pt, afterRec(s))
ensures [C01,C02,C03,C04] err == nil && isA(ciphertext, PreKey) ==> onlyHere(o, s) && decrypted(preRec(o, loaded(o), asA(ciphertext, PreKey)), val(asA(ciphertext, PreKey).message), pt, afterRec(s))
ensures [C01] err == nil ==> isA(ciphertext, Signal) || isA(ciphertext, PreKey)
ensures [C04,C03] isA(ciphertext, PreKey) && canDeliverPre(o, asA(ciphertext, PreKey), rndOk(rdOf(random), old(rand), 32), clampF(rnd(rdOf(random), old(rand), 32))) && !s.SessionStore.failed && !s.IdentityKeyStore.failed && !s.SignedPreKeyStore.failed && !s.PreKeyStore.failed ==> err == nil && authentic(val(preRec(o, loaded(o), asA(ciphertext, PreKey)).currentSession), val(asA(ciphertext, PreKey).message), pt, val(afterRec(s).currentSession)) && advances(val(preRec(o, loaded(o), asA(ciphertext, PreKey)).currentSession), val(asA(ciphertext, PreKey).message), val(afterRec(s).currentSession))
ensures [C19,C03] isA(ciphertext, Signal) && canDeliverArch(o, asA(ciphertext, Signal)) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil
ensures [C03,C19] isA(ciphertext, Signal) && canDeliver(o, asA(ciphertext, Signal)) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil && authentic(curOf(o), asA(ciphertext, Signal), pt, val(afterRec(s).currentSession)) && advances(curOf(o), asA(ciphertext, Signal), val(afterRec(s).currentSession))
ensures [C03,C04] isA(ciphertext, Signal) && canDeliverStep(o, asA(ciphertext, Signal), clampF(rnd(rdOf(random), old(rand), 32))) && rndOk(rdOf(random), old(rand), 32) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil && authentic(curOf(o), asA(ciphertext, Signal), pt, val(afterRec(s).currentSession)) && advances(curOf(o), asA(ciphertext, Signal), val(afterRec(s).currentSession))
ensures [C21] err == nil ==> ses(val(afterRec(s).currentSession)).PendingPreKey == nil
ensures [C06] err == nil ==> trusts(o.IdentityKeyStore.m, o.RemoteAddress, curRem(afterRec(s)), 2) && s.IdentityKeyStore.m == store(o.IdentityKeyStore.m, o.RemoteAddress, some(curRem(afterRec(s))))
ensures [C06] err == nil && isA(ciphertext, PreKey) ==> curRem(afterRec(s)) == asA(ciphertext, PreKey).identityKey
ensures [C20] err == nil && isA(ciphertext, PreKey) && !known(loaded(o), asA(ciphertext, PreKey)) ==> keysOk(o, asA(ciphertext, PreKey))
ensures [C20] err == nil ==> s.PreKeyStore.m == ite(isA(ciphertext, PreKey) && !known(loaded(o), asA(ciphertext, PreKey)) && asA(ciphertext, PreKey).preKeyID != nil, store(o.PreKeyStore.m, val(asA(ciphertext, PreKey).preKeyID), nil), o.PreKeyStore.m)
ensures [C20,C08] err == nil ==> s.SignedPreKeyStore.m == o.SignedPreKeyStore.m
ensures [C20] err != nil && !s.PreKeyStore.failed ==> s.PreKeyStore.m == o.PreKeyStore.m
ensures [C08] err != nil ==> s.SessionStore.failed || s.IdentityKeyStore.failed || s.SignedPreKeyStore.failed || s.PreKeyStore.failed || (s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m && s.PreKeyStore.m == o.PreKeyStore.m && s.SignedPreKeyStore.m == o.SignedPreKeyStore.m)

// ---- sessions from pre-key bundles
def bundleSigOk(b prekey.Bundle) bool = xedVerify(val(b.IdentityKey.publicKey).key, b.SignedPreKeySignature, encPub(b.SignedPreKeyPublic))
// Alice's state for bundle b; e and r are her new base and ratchet private keys
opaque aliceState(s session.Session, b prekey.Bundle, e bytes, r bytes) session.State = session.State{session: some(aSes(s.IdentityKeyStore.self.identityKey, b.IdentityKey, aSecret(skOf(s.IdentityKeyStore.self.privateKey), e, val(b.SignedPreKeyPublic).key, val(b.IdentityKey.publicKey).key, optKey(b.PreKeyPublic)), val(b.SignedPreKeyPublic).key, r) with {LocalRegistrationId: s.IdentityKeyStore.reg, RemoteRegistrationId: b.RegistrationID, AliceBaseKey: "\x05" ++ pubOf(e), PendingPreKey: some(v1.SessionStructure_PendingPreKey{PreKeyId: ite(b.PreKeyID == nil, 0, val(b.PreKeyID)), SignedPreKeyId: ite(b.SignedPreKeyID >= 2147483648, b.SignedPreKeyID - 4294967296, b.SignedPreKeyID), BaseKey: "\x05" ++ pubOf(e)})})}

def aliceDh(s session.Session, b prekey.Bundle, e bytes, r bytes) bool = x25519(skOf(s.IdentityKeyStore.self.privateKey), val(b.SignedPreKeyPublic).key) != rep(0, 32) && x25519(e, val(b.IdentityKey.publicKey).key) != rep(0, 32) && x25519(e, val(b.SignedPreKeyPublic).key) != rep(0, 32) && (b.PreKeyPublic != nil ==> x25519(e, val(b.PreKeyPublic).key) != rep(0, 32)) && x25519(r, val(b.SignedPreKeyPublic).key) != rep(0, 32)
contract (*session.Session).ProcessPreKeyBundle(s, ctx, random, bundle) (err)
anyerror
nilable random
reveal aliceState
modifies s.SessionStore, s.IdentityKeyStore, rand
requires bundle.SignedPreKeyPublic != nil
where o = old(s)
where r1 = clampF(rnd(rdOf(random), old(rand), 32))
where r2 = clampF(rnd(rdOf(random), old(rand) + 1, 32))
ensures [C07] err == nil ==> bundleSigOk(bundle)
ensures [C06] err == nil ==> trusts(o.IdentityKeyStore.m, o.RemoteAddress, bundle.IdentityKey, 1)
ensures [C06] err == nil ==> s.IdentityKeyStore.m == store(o.IdentityKeyStore.m, o.RemoteAddress, some(bundle.IdentityKey))
ensures [C04,C21] err == nil ==> onlyHere(o, s) && afterRec(s) == session.Record{currentSession: some(aliceState(o, bundle, r1, r2)), previousSessions: arch(loaded(o).previousSessions, loaded(o).currentSession)}
ensures [C05] err == nil ==> rand >= old(rand) + 2
ensures [C04,C07] bundleSigOk(bundle) && trusts(o.IdentityKeyStore.m, o.RemoteAddress, bundle.IdentityKey, 1) && aliceDh(o, bundle, r1, r2) && rndOk(rdOf(random), old(rand), 32) && rndOk(rdOf(random), old(rand) + 1, 32) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> err == nil
ensures [C07] !bundleSigOk(bundle) && !s.SessionStore.failed && !s.IdentityKeyStore.failed ==> s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m
ensures [C08] err != nil ==> s.SessionStore.failed || s.IdentityKeyStore.failed || (s.SessionStore.m == o.SessionStore.m && s.IdentityKeyStore.m == o.IdentityKeyStore.m)
