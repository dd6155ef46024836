// ---- session state (protocol/session/state.go)
def fits(m v1.SessionStructure) bool = len(m.ReceiverChains) <= 5 && forall q int :: {m.ReceiverChains[q]} (0 <= q && q < len(m.ReceiverChains) && m.ReceiverChains[q] != nil) ==> len(val(m.ReceiverChains[q]).MessageKeys) <= 2000
typeinv session.State(s): s.session != nil && fits(val(s.session))

def ses(s session.State) v1.SessionStructure = val(s.session)
def setSes(s session.State, x v1.SessionStructure) session.State = s with {session: some(x)}

// first receiver chain whose ratchet key encodes as key; -1 if there is none
def chainIs(c opt<v1.SessionStructure_Chain>, key bytes) bool = ite(c == nil, len(key) == 0, val(c).SenderRatchetKey == key)
func firstChain(l list<opt<v1.SessionStructure_Chain>>, key bytes) int
axiom firstChainDef: forall l list<opt<v1.SessionStructure_Chain>>, key bytes :: {firstChain(l, key)} 0 - 1 <= firstChain(l, key) && firstChain(l, key) < len(l) && (firstChain(l, key) >= 0 ==> chainIs(l[firstChain(l, key)], key)) && (forall j int :: {l[j]} (0 <= j && j < len(l) && (firstChain(l, key) < 0 || j < firstChain(l, key))) ==> !chainIs(l[j], key))

def rcv(s session.State, k curve.PublicKey) int = firstChain(ses(s).ReceiverChains, encPub(k))
def rcvChain(s session.State, k curve.PublicKey) v1.SessionStructure_Chain = val(ses(s).ReceiverChains[rcv(s, k)])
def setRcv(s session.State, k curve.PublicKey, c v1.SessionStructure_Chain) session.State = setSes(s, ses(s) with {ReceiverChains: upd(ses(s).ReceiverChains, rcv(s, k), some(c))})
def ckPb(c ratchet.ChainKey) v1.SessionStructure_Chain_ChainKey = v1.SessionStructure_Chain_ChainKey{Index: c.index, Key: c.key}
def ckOf(c opt<v1.SessionStructure_Chain_ChainKey>) ratchet.ChainKey = ite(c == nil, ratchet.ChainKey{key: [], index: 0}, ratchet.ChainKey{key: val(c).Key, index: val(c).Index})
def mkPb(m ratchet.MessageKeys) v1.SessionStructure_Chain_MessageKey = v1.SessionStructure_Chain_MessageKey{Index: m.counter, CipherKey: m.cipherKey, MacKey: m.macKey, Iv: m.iv}
def dropOver(l list<opt<v1.SessionStructure_Chain>>, n int) list<opt<v1.SessionStructure_Chain>> = ite(len(l) > n, l[1:len(l)], l)

contract (*session.State).Clone(s) (r)
ensures [C08] r == some(s)

contract (*session.State).SetAliceBaseKey(s, key)
modifies s
ensures [C19,C20] s == setSes(old(s), ses(old(s)) with {AliceBaseKey: key})

contract (*session.State).AliceBaseKey(s) (k)
ensures [C19,C20] k == ses(s).AliceBaseKey

def verOf(s session.State) int = ite(ses(s).SessionVersion == 0, 2, ses(s).SessionVersion)
contract (*session.State).Version(s) (v)
ensures [C01,C19] v == verOf(s)

// identity keys of a state
def remOk(s session.State) bool = pubOk(ses(s).RemoteIdentityPublic)
def remId(s session.State) identity.Key = identity.Key{publicKey: some(mkPub(ses(s).RemoteIdentityPublic[1:33]))}
def locOk(s session.State) bool = pubOk(ses(s).LocalIdentityPublic)
def locId(s session.State) identity.Key = identity.Key{publicKey: some(mkPub(ses(s).LocalIdentityPublic[1:33]))}
def isSelf(s session.State) bool = remId(s) == locId(s)

contract (*session.State).RemoteIdentityKey(s) (k, ok, err)
ensures [C01,C06] err == nil <==> (len(ses(s).RemoteIdentityPublic) == 0 || remOk(s))
ensures [C01,C06] ok <==> remOk(s)
ensures [C01,C06] ok ==> k == remId(s)

contract (*session.State).LocalIdentityKey(s) (k, err)
ensures [C01,C06] err == nil <==> locOk(s)
ensures [C01,C06] err == nil ==> k == locId(s)

contract (*session.State).SessionWithSelf(s) (r, err)
ensures [C03] err == nil && r ==> remOk(s) && locOk(s) && isSelf(s)
ensures [C03] remOk(s) && locOk(s) ==> err == nil && (r <==> isSelf(s))

contract (*session.State).SetPreviousCounter(s, counter)
modifies s
ensures [C04] s == setSes(old(s), ses(old(s)) with {PreviousCounter: counter})

contract (*session.State).PreviousCounter(s) (c)
ensures [C04] c == ses(s).PreviousCounter

contract (*session.State).SetRootKey(s, key)
modifies s
ensures [C04] s == setSes(old(s), ses(old(s)) with {RootKey: key.key})

contract (*session.State).RootKey(s) (k, err)
ensures [C04] err == nil <==> len(ses(s).RootKey) == 32
ensures [C04] err == nil ==> k == ratchet.RootKey{key: ses(s).RootKey}

def sndOk(s session.State) bool = ses(s).SenderChain != nil
def snd(s session.State) v1.SessionStructure_Chain = val(ses(s).SenderChain)

contract (*session.State).SenderRatchetPrivateKey(s) (k, err)
ensures [C04] err == nil <==> (sndOk(s) && len(snd(s).SenderRatchetKeyPrivate) == 32)
ensures [C04] err == nil ==> k != nil && skOf(k) == clampF(snd(s).SenderRatchetKeyPrivate)

contract (*session.State).SenderRatchetKey(s) (k, err)
ensures [C04] err == nil <==> (sndOk(s) && pubOk(snd(s).SenderRatchetKey))
ensures [C04] err == nil ==> k == some(mkPub(snd(s).SenderRatchetKey[1:33]))

contract (*session.State).SetReceiverChainKey(s, sender, chainKey) (err)
modifies s
ensures [C02,C03] err == nil <==> rcv(old(s), sender) >= 0
ensures [C02,C03] err == nil ==> s == setRcv(old(s), sender, rcvChain(old(s), sender) with {ChainKey: some(ckPb(chainKey))})

contract (*session.State).ReceiverChainKey(s, sender) (k, ok, err)
ensures [C02,C03] err == nil <==> (rcv(s, sender) < 0 || len(ckOf(rcvChain(s, sender).ChainKey).key) == 32)
ensures [C02,C03] err == nil ==> (ok <==> rcv(s, sender) >= 0)
ensures [C02,C03] ok ==> k == ckOf(rcvChain(s, sender).ChainKey)

contract (*session.State).AddReceiverChain(s, sender, chainKey)
modifies s
ensures [C03,C04] s == setSes(old(s), ses(old(s)) with {ReceiverChains: dropOver(ses(old(s)).ReceiverChains ++ unit(some(v1.SessionStructure_Chain{SenderRatchetKey: encPub(sender), ChainKey: some(ckPb(chainKey))})), 5)})

contract (*session.State).SetSenderChain(s, sender, nextChainKey)
modifies s
ensures [C04] s == setSes(old(s), ses(old(s)) with {SenderChain: some(v1.SessionStructure_Chain{SenderRatchetKey: encPub(sender.publicKey), SenderRatchetKeyPrivate: skOf(sender.privateKey), ChainKey: some(ckPb(nextChainKey))})})

def sckOk(s session.State) bool = sndOk(s) && snd(s).ChainKey != nil && len(val(snd(s).ChainKey).Key) == 32
contract (*session.State).SenderChainKey(s) (k, err)
ensures [C04,C05] err == nil <==> sckOk(s)
ensures [C04,C05] err == nil ==> k == ckOf(snd(s).ChainKey)

contract (*session.State).SetSenderChainKey(s, nextChainKey)
modifies s
ensures [C04,C05] s == setSes(old(s), ses(old(s)) with {SenderChain: some(ite(sndOk(old(s)), snd(old(s)), v1.SessionStructure_Chain{}) with {ChainKey: some(ckPb(nextChainKey))})})

// message keys kept for skipped messages of a chain: at most 2000, oldest dropped
def pushMK(l list<opt<v1.SessionStructure_Chain_MessageKey>>, m ratchet.MessageKeys) list<opt<v1.SessionStructure_Chain_MessageKey>> = ite(len(l) >= 2000, (l ++ unit(some(mkPb(m))))[1:len(l) + 1], l ++ unit(some(mkPb(m))))

contract (*session.State).SetMessageKeys(s, sender, messageKeys) (err)
modifies s
ensures [C03] err == nil <==> rcv(old(s), sender) >= 0
ensures [C03] err == nil ==> s == setRcv(old(s), sender, rcvChain(old(s), sender) with {MessageKeys: pushMK(rcvChain(old(s), sender).MessageKeys, messageKeys)})

def mkIdx(m opt<v1.SessionStructure_Chain_MessageKey>) int = ite(m == nil, 0, val(m).Index)
rec keepMK(l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int) list<opt<v1.SessionStructure_Chain_MessageKey>> = [] | ite(mkIdx(l[n]) == c, prev, prev ++ unit(l[n]))
rec findMK(l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int) opt<v1.SessionStructure_Chain_MessageKey> = nil | ite(mkIdx(l[n]) == c, some(ite(l[n] == nil, v1.SessionStructure_Chain_MessageKey{}, val(l[n]))), prev)
def mkGood(m v1.SessionStructure_Chain_MessageKey) bool = len(m.CipherKey) == 32 && len(m.MacKey) == 32 && len(m.Iv) == 16
def mkVal(m v1.SessionStructure_Chain_MessageKey, c int) ratchet.MessageKeys = ratchet.MessageKeys{cipherKey: m.CipherKey, macKey: m.MacKey, iv: m.Iv, counter: c}
template mkFilter(a list<opt<v1.SessionStructure_Chain_MessageKey>>, c u32, n int, i int): 0 <= n && n <= i && i <= len(init(a)) && len(a) == len(init(a)) && a[0:n] == keepMK(init(a), c, i) && (forall j int :: {a[j]} (i <= j && j < len(a)) ==> a[j] == init(a)[j])
template exact mkKept(a list<opt<v1.SessionStructure_Chain_MessageKey>>, l list<opt<v1.SessionStructure_Chain_MessageKey>>, c u32, i int): a == keepMK(l, c, i)
template exact mkKeptIn(a list<opt<v1.SessionStructure_Chain_MessageKey>>, l list<opt<v1.SessionStructure_Chain_MessageKey>>, c u32, n int, i int): 0 <= n && n <= i && i <= len(l) && len(a) == len(init(a)) && a[0:n] == keepMK(l, c, i)
template mkFound(f bool, l list<opt<v1.SessionStructure_Chain_MessageKey>>, c u32, i int): f <==> findMK(init(l), c, i) != nil
template mkTaken(k ratchet.MessageKeys, er error, l list<opt<v1.SessionStructure_Chain_MessageKey>>, c u32, i int): (findMK(init(l), c, i) == nil ==> er == init(er)) && (findMK(init(l), c, i) != nil ==> (er == nil <==> mkGood(val(findMK(init(l), c, i)))) && (er == nil ==> k == mkVal(val(findMK(init(l), c, i)), c)))

contract (*session.State).MessageKeys(s, sender, counter) (k, ok, err)
modifies s
where i = rcv(old(s), sender)
where l = rcvChain(old(s), sender).MessageKeys
ensures [C02,C03] i < 0 ==> !ok && err == nil && s == old(s)
ensures [C02,C03] i >= 0 ==> s == setRcv(old(s), sender, rcvChain(old(s), sender) with {MessageKeys: keepMK(l, counter, len(l))})
ensures [C03,C02] i >= 0 ==> (ok <==> findMK(l, counter, len(l)) != nil)
ensures [C03,C02] i >= 0 && ok && err == nil ==> k == mkVal(val(findMK(l, counter, len(l))), counter)
ensures [C02,C03] i >= 0 ==> (err == nil <==> (!ok || mkGood(val(findMK(l, counter, len(l))))))

// the one-time pre-key identifier 0 stands for none: see known_findings.txt
def pendingOf(pk opt<int>, spk int, base curve.PublicKey) v1.SessionStructure_PendingPreKey = v1.SessionStructure_PendingPreKey{PreKeyId: ite(pk == nil, 0, val(pk)), SignedPreKeyId: ite(spk >= 2147483648, spk - 4294967296, spk), BaseKey: encPub(base)}
contract (*session.State).SetUnacknowledgedPreKeyMessage(s, preKeyID, signedPreKeyID, baseKey)
nilable preKeyID
modifies s
ensures [C21] s == setSes(old(s), ses(old(s)) with {PendingPreKey: some(pendingOf(preKeyID, signedPreKeyID, baseKey))})

contract (*session.State).ClearUnacknowledgedPreKeyMessage(s)
modifies s
ensures [C21] s == setSes(old(s), ses(old(s)) with {PendingPreKey: nil})

contract (*session.State).SetRemoteRegistrationID(s, id)
modifies s
ensures [C21] s == setSes(old(s), ses(old(s)) with {RemoteRegistrationId: id})

contract (*session.State).SetLocalRegistrationID(s, id)
modifies s
ensures [C21] s == setSes(old(s), ses(old(s)) with {LocalRegistrationId: id})

contract (*session.State).LocalRegistrationID(s) (id)
ensures [C21] id == ses(s).LocalRegistrationId

contract (*session.State).Bytes(s) (b)
ensures [C19] b == marshal(ses(s))

// what is still to be sent along until the other side answers
def unackOf(p v1.SessionStructure_PendingPreKey) session.UnacknowledgedPreKeyMessageItems = session.UnacknowledgedPreKeyMessageItems{preKeyID: ite(p.PreKeyId == 0, nil, some(p.PreKeyId)), signedPreKeyID: ite(p.SignedPreKeyId < 0, p.SignedPreKeyId + 4294967296, p.SignedPreKeyId), baseKey: mkPub(p.BaseKey[1:33])}
def pendOk(s session.State) bool = ses(s).PendingPreKey == nil || pubOk(val(ses(s).PendingPreKey).BaseKey)
contract (*session.State).UnacknowledgedPreKeyMessages(s) (u, err)
ensures [C21] err == nil <==> pendOk(s)
ensures [C21] err == nil ==> u == ite(ses(s).PendingPreKey == nil, nil, some(unackOf(val(ses(s).PendingPreKey))))
