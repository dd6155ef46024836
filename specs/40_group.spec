// ---- group (sender-key) states and records (protocol/session/group_*.go)
typeinv session.GroupState(s): s.state != nil && len(val(s.state).SenderMessageKeys) <= 2000
typeinv session.GroupRecord(g): len(g.states) <= 5 && forall j int :: {g.states[j]} (0 <= j && j < len(g.states)) ==> g.states[j] != nil

def gs(s session.GroupState) v1.SenderKeyStateStructure = val(s.state)
def setGs(s session.GroupState, x v1.SenderKeyStateStructure) session.GroupState = s with {state: some(x)}
def gVer(s session.GroupState) int = ite(gs(s).MessageVersion == 0, 3, gs(s).MessageVersion)
def gckPb(c senderkey.ChainKey) v1.SenderKeyStateStructure_SenderChainKey = v1.SenderKeyStateStructure_SenderChainKey{Iteration: c.iteration, Seed: c.chainKey}
def gck(s session.GroupState) senderkey.ChainKey = ite(gs(s).SenderChainKey == nil, senderkey.ChainKey{chainKey: [], iteration: 0}, senderkey.ChainKey{chainKey: val(gs(s).SenderChainKey).Seed, iteration: val(gs(s).SenderChainKey).Iteration})
def gPub(s session.GroupState) bytes = ite(gs(s).SenderSigningKey == nil, [], val(gs(s).SenderSigningKey).Public)
def gPriv(s session.GroupState) bytes = ite(gs(s).SenderSigningKey == nil, [], val(gs(s).SenderSigningKey).Private)
def newGs(v int, chain int, it int, seed bytes, pub bytes, priv bytes) session.GroupState = session.GroupState{state: some(v1.SenderKeyStateStructure{MessageVersion: v, ChainId: chain, SenderChainKey: some(v1.SenderKeyStateStructure_SenderChainKey{Iteration: it, Seed: seed}), SenderSigningKey: some(v1.SenderKeyStateStructure_SenderSigningKey{Public: pub, Private: priv})})}

contract session.NewGroupState(cfg) (s)
requires cfg.SignatureKey != nil
ensures [C13] s == some(newGs(cfg.MessageVersion, cfg.ChainID, cfg.Iteration, cfg.ChainKey, encPub(cfg.SignatureKey), ite(cfg.SignaturePrivateKey == nil, [], skOf(cfg.SignaturePrivateKey))))

contract (*session.GroupState).clone(s) (r)
fresh
ensures [C08] r == some(s)

contract (*session.GroupState).Version(s) (v)
ensures [C11] v == gVer(s)

contract (*session.GroupState).ChainID(s) (c)
ensures [C11,C13] c == gs(s).ChainId

contract (*session.GroupState).SenderChainKey(s) (c)
ensures [C12,C05] c == gck(s)

contract (*session.GroupState).SetSenderChainKey(s, chainKey)
modifies s
ensures [C12,C05] s == setGs(old(s), gs(old(s)) with {SenderChainKey: some(gckPb(chainKey))})

contract (*session.GroupState).PrivateSigningKey(s) (k, err)
ensures [C11] err == nil <==> len(gPriv(s)) == 32
ensures [C11] err == nil ==> k != nil && skOf(k) == clampF(gPriv(s))

contract (*session.GroupState).PublicSigningKey(s) (k, err)
ensures [C11] err == nil <==> pubOk(gPub(s))
ensures [C11] err == nil ==> k == some(mkPub(gPub(s)[1:33]))

def gmkPb(m senderkey.MessageKey) v1.SenderKeyStateStructure_SenderMessageKey = v1.SenderKeyStateStructure_SenderMessageKey{Iteration: m.iteration, Seed: m.seed}
def gPushMK(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, m senderkey.MessageKey) list<opt<v1.SenderKeyStateStructure_SenderMessageKey>> = ite(len(l) >= 2000, (l ++ unit(some(gmkPb(m))))[1:len(l) + 1], l ++ unit(some(gmkPb(m))))

contract (*session.GroupState).AddMessageKey(s, key)
modifies s
ensures [C12] s == setGs(old(s), gs(old(s)) with {SenderMessageKeys: gPushMK(gs(old(s)).SenderMessageKeys, key)})

// first saved key of an iteration; -1 if there is none
def gmkIt(m opt<v1.SenderKeyStateStructure_SenderMessageKey>) int = ite(m == nil, 0, val(m).Iteration)
def gmkSeed(m opt<v1.SenderKeyStateStructure_SenderMessageKey>) bytes = ite(m == nil, [], val(m).Seed)
func firstGMK(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, it int) int
axiom firstGMKDef: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, it int :: {firstGMK(l, it)} 0 - 1 <= firstGMK(l, it) && firstGMK(l, it) < len(l) && (firstGMK(l, it) >= 0 ==> gmkIt(l[firstGMK(l, it)]) == it) && (forall j int :: {l[j]} (0 <= j && j < len(l) && (firstGMK(l, it) < 0 || j < firstGMK(l, it))) ==> gmkIt(l[j]) != it)

def gmkWithout(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, i int) list<opt<v1.SenderKeyStateStructure_SenderMessageKey>> = l[0:i] ++ l[i + 1:len(l)]
contract (*session.GroupState).RemoveMessageKeys(s, iteration) (k, ok, err)
modifies s
where l = gs(old(s)).SenderMessageKeys
where i = firstGMK(gs(old(s)).SenderMessageKeys, iteration)
ensures [C12] err == nil
ensures [C12] ok <==> i >= 0
ensures [C12] ok ==> k == deriveGMK(gmkSeed(l[i]), iteration)
ensures [C12] s == ite(i >= 0, setGs(old(s), gs(old(s)) with {SenderMessageKeys: gmkWithout(l, i)}), old(s))

contract session.NewGroupRecord() (g)
ensures [C13] g == some(session.GroupRecord{states: []})

template gsCopied(g session.GroupRecord, l list<opt<session.GroupState>>, i int): len(g.states) == i && g.states == l[0:i]
contract (*session.GroupRecord).clone(g) (r)
fresh
ensures [C08] r == some(g)

contract (*session.GroupRecord).State(g) (s, err)
inline
ensures [C11,C05] err == nil <==> len(g.states) > 0
ensures [C11,C05] err == nil ==> s == g.states[0]

// first state of a chain
func firstGS(l list<opt<session.GroupState>>, c int) int
axiom firstGSDef: forall l list<opt<session.GroupState>>, c int :: {firstGS(l, c)} 0 - 1 <= firstGS(l, c) && firstGS(l, c) < len(l) && (firstGS(l, c) >= 0 ==> gs(val(l[firstGS(l, c)])).ChainId == c) && (forall j int :: {l[j]} (0 <= j && j < len(l) && (firstGS(l, c) < 0 || j < firstGS(l, c))) ==> gs(val(l[j])).ChainId != c)

contract (*session.GroupRecord).StateForChainID(g, chainID) (s)
inline
ensures [C11] s == ite(firstGS(g.states, chainID) < 0, nil, g.states[firstGS(g.states, chainID)])

// first state of a chain with a given signing key
def gsIs(s opt<session.GroupState>, c int, k bytes) bool = gs(val(s)).ChainId == c && pubOk(gPub(val(s))) && gPub(val(s))[1:33] == k
func firstKnown(l list<opt<session.GroupState>>, c int, k bytes) int
axiom firstKnownDef: forall l list<opt<session.GroupState>>, c int, k bytes :: {firstKnown(l, c, k)} 0 - 1 <= firstKnown(l, c, k) && firstKnown(l, c, k) < len(l) && (firstKnown(l, c, k) >= 0 ==> gsIs(l[firstKnown(l, c, k)], c, k)) && (forall j int :: {l[j]} (0 <= j && j < len(l) && (firstKnown(l, c, k) < 0 || j < firstKnown(l, c, k))) ==> !gsIs(l[j], c, k))
opaque gsWithout(l list<opt<session.GroupState>>, i int) list<opt<session.GroupState>> = l[0:i] ++ l[i + 1:len(l)]

contract (*session.GroupRecord).RemoveState(g, chainID, signatureKey) (s, ok)
fresh
reveal gsWithout
modifies g
where l = old(g).states
where i = firstKnown(old(g).states, chainID, val(signatureKey).key)
ensures [C13] ok <==> i >= 0
ensures [C13] ok ==> s == l[i]
ensures [C13] !ok ==> s == nil
ensures [C13] g.states == ite(i >= 0, gsWithout(l, i), l)

rec keepGS(l list<opt<session.GroupState>>, c int, n int) list<opt<session.GroupState>> = [] | ite(gs(val(l[n])).ChainId == c, prev, prev ++ unit(l[n]))
def gsGood(s opt<session.GroupState>) bool = s != nil && val(s).state != nil
lemma keepGSLen induct n: forall l list<opt<session.GroupState>>, c int, n int :: {keepGS(l, c, n)} len(keepGS(l, c, n)) <= ite(n < 0, 0, n)
lemma keepGSGood induct n: forall l list<opt<session.GroupState>>, c int, n int, j int :: {keepGS(l, c, n)[j]} (n <= len(l) && 0 <= j && j < len(keepGS(l, c, n)) && (forall i int :: {l[i]} (0 <= i && i < len(l)) ==> gsGood(l[i]))) ==> gsGood(keepGS(l, c, n)[j])
template gsFilter(a list<opt<session.GroupState>>, c u32, n int, i int): 0 <= n && n <= i && i <= len(init(a)) && len(a) == len(init(a)) && a[0:n] == keepGS(init(a), c, i) && (forall j int :: {a[j]} (i <= j && j < len(a)) ==> a[j] == init(a)[j])
template exact gsKept(a list<opt<session.GroupState>>, l list<opt<session.GroupState>>, c u32, i int): a == keepGS(l, c, i)
template exact gsKeptIn(a list<opt<session.GroupState>>, l list<opt<session.GroupState>>, c u32, n int, i int): 0 <= n && n <= i && i <= len(l) && len(a) == len(init(a)) && a[0:n] == keepGS(l, c, i)
contract (*session.GroupRecord).RemoveStates(g, chainID) (n)
modifies g
ensures [C13] g.states == keepGS(old(g).states, chainID, len(old(g).states))
ensures [C13] n == len(old(g).states) - len(g.states)

// adding a state: a known state of the same chain and key is kept, others of that chain go, at most five remain
lemma gsWithoutLen reveal gsWithout: forall l list<opt<session.GroupState>>, i int :: {gsWithout(l, i)} (0 <= i && i < len(l)) ==> len(gsWithout(l, i)) == len(l) - 1
lemma keepGSWithout reveal gsWithout induct n: forall l list<opt<session.GroupState>>, i int, c int, n int :: {keepGS(gsWithout(l, i), c, n)} (0 <= i && i < len(l) && n <= len(l) - 1 && gs(val(l[i])).ChainId == c) ==> keepGS(gsWithout(l, i), c, n) == keepGS(l, c, ite(n <= i, n, n + 1))
def dropGS(l list<opt<session.GroupState>>) list<opt<session.GroupState>> = ite(len(l) >= 5, l[1:len(l)], l)
def knownAs(l list<opt<session.GroupState>>, s session.GroupState) int = firstKnown(l, gs(s).ChainId, gPub(s)[1:33])
def addGS(l list<opt<session.GroupState>>, s session.GroupState) list<opt<session.GroupState>> = dropGS(keepGS(l, gs(s).ChainId, len(l))) ++ unit(ite(knownAs(l, s) >= 0, l[knownAs(l, s)], some(s)))
contract (*session.GroupRecord).AddState(g, state) (err)
inline
modifies g
ensures [C13] err == nil <==> pubOk(gPub(state))
ensures [C13] err == nil ==> g.states == addGS(old(g).states, state)
ensures [C13,C08] err != nil ==> g == old(g)

// ---- message keys of a chain
rec gPushTo(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int) list<opt<v1.SenderKeyStateStructure_SenderMessageKey>> = l | gPushMK(prev, gmkOf(ckAt(k, n), i + n))
template gSkip(s session.GroupState, c senderkey.ChainKey, n u32): c.iteration <= n && 0 <= c.iteration - init(c).iteration && c.chainKey == ckAt(init(c).chainKey, c.iteration - init(c).iteration) && s == setGs(init(s), gs(init(s)) with {SenderMessageKeys: gPushTo(gs(init(s)).SenderMessageKeys, init(c).chainKey, init(c).iteration, c.iteration - init(c).iteration)})

template gSkipN(s session.GroupState, c senderkey.ChainKey, i int): 0 <= i - init(i) && c.iteration - init(c).iteration == i - init(i) && c.chainKey == ckAt(init(c).chainKey, i - init(i)) && s == setGs(init(s), gs(init(s)) with {SenderMessageKeys: gPushTo(gs(init(s)).SenderMessageKeys, init(c).chainKey, init(c).iteration, i - init(i))})

def gDist(s session.GroupState, it int) int = it - gck(s).iteration
def gSaved(s session.GroupState, it int) int = firstGMK(gs(s).SenderMessageKeys, it)
// the key of an iteration, and the state after it was used
opaque gUse(s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState) bool = gDist(s, it) <= 25000 && ite(gDist(s, it) < 0, gSaved(s, it) >= 0 && mk == deriveGMK(gmkSeed(gs(s).SenderMessageKeys[gSaved(s, it)]), it) && s2 == setGs(s, gs(s) with {SenderMessageKeys: gmkWithout(gs(s).SenderMessageKeys, gSaved(s, it))}), mk == gmkOf(ckAt(gck(s).chainKey, gDist(s, it)), it) && s2 == setGs(s, gs(s) with {SenderMessageKeys: gPushTo(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)), SenderChainKey: some(gckPb(senderkey.ChainKey{iteration: (it + 1) % 4294967296, chainKey: ckAt(gck(s).chainKey, gDist(s, it) + 1)}))}))
opaque gGone(s session.GroupState, it int) bool = gDist(s, it) < 0 && gSaved(s, it) < 0
// the key of an iteration, nil if it is gone
opaque gKey(s session.GroupState, it int) opt<senderkey.MessageKey> = ite(gDist(s, it) < 0, ite(gSaved(s, it) < 0, nil, some(deriveGMK(gmkSeed(gs(s).SenderMessageKeys[gSaved(s, it)]), it))), some(gmkOf(ckAt(gck(s).chainKey, gDist(s, it)), it)))
lemma [C12] gKeyIs reveal gKey reveal gUse: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState :: {gUse(s, it, mk, s2)} gUse(s, it, mk, s2) ==> gKey(s, it) == some(mk)
lemma [C12] gKeyGone reveal gKey reveal gGone: forall s session.GroupState, it int :: {gGone(s, it)} gGone(s, it) <==> gKey(s, it) == nil

contract (*session.GroupSession).messageKey(g, state, iteration, distributionID) (mk, err)
reveal gUse, gGone
modifies state
where o = old(state)
ensures [C12] err >= 0 || err == perrors.ErrDuplicateMessage
ensures [C12] err == perrors.ErrDuplicateMessage <==> gGone(o, iteration)
ensures [C12] err == nil ==> gUse(o, iteration, mk, state)
ensures [C12] !gGone(o, iteration) && gDist(o, iteration) <= 25000 ==> err == nil

// ---- the sender-key store
ghost GroupG { m map<session.key, opt<session.GroupRecord>>, failed bool }
ghosttype session.GroupStore = GroupG

contract session.GroupStore.Load(s, ctx, sender, distributionID) (r, ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> s.m[session.key{address: sender, id: distributionID}] != nil) && (ok ==> r == s.m[session.key{address: sender, id: distributionID}])

contract session.GroupStore.Store(s, ctx, sender, distributionID, record) (err)
modifies s
ensures s.failed <==> (old(s).failed || err != nil)
ensures err == nil ==> s.m == store(old(s).m, session.key{address: sender, id: distributionID}, some(record))

def gAt(g session.GroupSession, d distribution.ID) opt<session.GroupRecord> = g.SenderKeyStore.m[session.key{address: g.SenderAddress, id: d}]
def gStored(o session.GroupSession, g session.GroupSession, d distribution.ID, r session.GroupRecord) bool = g.SenderKeyStore.m == store(o.SenderKeyStore.m, session.key{address: o.SenderAddress, id: d}, some(r))
def gSame(o session.GroupSession, g session.GroupSession) bool = g.SenderKeyStore.failed || g.SenderKeyStore.m == o.SenderKeyStore.m

def gSt(g session.GroupSession, d distribution.ID) session.GroupState = val(val(gAt(g, d)).states[0])
def gMK(s session.GroupState) senderkey.MessageKey = gmkOf(gck(s).chainKey, gck(s).iteration)
def gBody(s session.GroupState, d distribution.ID, p bytes) bytes = skBody(gVer(s) % 256, d, gs(s).ChainId, gck(s).iteration, cbcEnc(gMK(s).cipherKey, gMK(s).iv, pad(p)))
def gNext(s session.GroupState) session.GroupState = setGs(s, gs(s) with {SenderChainKey: some(gckPb(senderkey.ChainKey{iteration: (gck(s).iteration + 1) % 4294967296, chainKey: nextCK(gck(s).chainKey)}))})

contract (*session.GroupSession).EncryptMessage(g, ctx, random, plaintext) (m, err)
anyerror
nilable random
modifies g.SenderKeyStore, rand
where o = old(g)
where s = gSt(o, o.DistID)
ensures [C05,C12] err == nil ==> gAt(o, o.DistID) != nil && len(val(gAt(o, o.DistID)).states) > 0
ensures [C05,C11,C12] err == nil ==> m == some(skMsg(gVer(s) % 256, o.DistID, gs(s).ChainId, gck(s).iteration, cbcEnc(gMK(s).cipherKey, gMK(s).iv, pad(plaintext)), xedSig(clampF(gPriv(s)), gBody(s, o.DistID, plaintext), rnd(rdOf(random), old(rand), 64))))
ensures [C05,C12] err == nil ==> gStored(o, g, o.DistID, session.GroupRecord{states: upd(val(gAt(o, o.DistID)).states, 0, some(gNext(s)))})
ensures [C12,C11] gAt(o, o.DistID) != nil && len(val(gAt(o, o.DistID)).states) > 0 && len(gPriv(s)) == 32 && rndOk(rdOf(random), old(rand), 64) && !g.SenderKeyStore.failed ==> err == nil
ensures [C08] err != nil ==> gSame(o, g)

// decrypting m with record r gives pt and record n
opaque gAuth(r session.GroupRecord, m message.SenderKey) bool = firstGS(r.states, m.chainID) >= 0 && m.version == gVer(val(r.states[firstGS(r.states, m.chainID)])) && pubOk(gPub(val(r.states[firstGS(r.states, m.chainID)]))) && skSigOk(m, some(mkPub(gPub(val(r.states[firstGS(r.states, m.chainID)]))[1:33])))
opaque gOpens(k senderkey.MessageKey, m message.SenderKey) bool = len(m.ciphertext) > 0 && len(m.ciphertext) % 16 == 0 && padOk(cbcDec(k.cipherKey, k.iv, m.ciphertext))
opaque gPlain(k senderkey.MessageKey, m message.SenderKey, pt bytes) bool = len(m.ciphertext) > 0 && len(m.ciphertext) % 16 == 0 && padOk(cbcDec(k.cipherKey, k.iv, m.ciphertext)) && pt == unpad(cbcDec(k.cipherKey, k.iv, m.ciphertext))

contract (*session.GroupSession).DecryptMessage(g, ctx, ciphertext) (pt, err)
anyerror
reveal gAuth, gPlain, gOpens
modifies g.SenderKeyStore
where o = old(g)
where r = val(gAt(old(g), ciphertext.distID))
where i = firstGS(val(gAt(old(g), ciphertext.distID)).states, ciphertext.chainID)
ensures [C11] err == nil ==> gAt(o, ciphertext.distID) != nil && gAuth(r, ciphertext)
ensures [C11,C12] err == nil ==> exists mk senderkey.MessageKey, s2 session.GroupState :: {gUse(val(r.states[i]), ciphertext.iteration, mk, s2)} gUse(val(r.states[i]), ciphertext.iteration, mk, s2) && gPlain(mk, ciphertext, pt) && gStored(o, g, ciphertext.distID, session.GroupRecord{states: upd(r.states, i, some(s2))})
ensures [C12] gAt(o, ciphertext.distID) != nil && gAuth(r, ciphertext) && gDist(val(r.states[i]), ciphertext.iteration) <= 25000 && gKey(val(r.states[i]), ciphertext.iteration) != nil && gOpens(val(gKey(val(r.states[i]), ciphertext.iteration)), ciphertext) && !g.SenderKeyStore.failed ==> err == nil
ensures [C12] gAt(o, ciphertext.distID) != nil && i >= 0 && gGone(val(r.states[i]), ciphertext.iteration) ==> err != nil
ensures [C11] err != nil ==> len(pt) == 0
ensures [C08,C12] err != nil ==> gSame(o, g)

// ---- sender-key distribution
def gLoaded(g session.GroupSession, d distribution.ID) session.GroupRecord = ite(gAt(g, d) == nil, session.GroupRecord{states: []}, val(gAt(g, d)))
def skdState(m message.SenderKeyDistribution) session.GroupState = newGs(m.version, m.chainID, m.iteration, m.chainKey, encPub(m.signingKey), [])

contract (*session.GroupSession).ProcessSenderKeyDistribution(g, ctx, message) (err)
anyerror
modifies g.SenderKeyStore
where o = old(g)
ensures [C13] err == nil ==> gStored(o, g, message.distID, session.GroupRecord{states: addGS(gLoaded(o, message.distID).states, skdState(message))})
ensures [C13] !g.SenderKeyStore.failed ==> err == nil
ensures [C08] err != nil ==> gSame(o, g)

def skdOf(s session.GroupState, d distribution.ID) message.SenderKeyDistribution = skdMsg(gVer(s) % 256, d, gs(s).ChainId, gck(s).iteration, gck(s).chainKey, mkPub(gPub(s)[1:33]))
// a new sender's state: the chain key and the private signing key are new random values
def le32(b bytes) int = b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3]
def be32(b bytes) int = b[3] + 256 * b[2] + 65536 * b[1] + 16777216 * b[0]
// 31 bits of randomness, whichever and in whichever byte order
def gFreshAs(s session.GroupState, c int, seed bytes, sk bytes) bool = s == newGs(3, c, 0, seed, "\x05" ++ pubOf(sk), sk)
def gFresh(s session.GroupState, id bytes, seed bytes, sk bytes) bool = gFreshAs(s, le32(id) / 2, seed, sk) || gFreshAs(s, le32(id) % 2147483648, seed, sk) || gFreshAs(s, be32(id) / 2, seed, sk) || gFreshAs(s, be32(id) % 2147483648, seed, sk)
contract (*session.GroupSession).NewSenderKeyDistribution(g, ctx, random) (m, err)
anyerror
modifies g.SenderKeyStore, rand
where o = old(g)
ensures [C13,C12] err == nil ==> gAt(g, o.DistID) != nil && len(val(gAt(g, o.DistID)).states) > 0 && m == some(skdOf(gSt(g, o.DistID), o.DistID))
ensures [C13] err == nil && gAt(o, o.DistID) != nil ==> g.SenderKeyStore.m == o.SenderKeyStore.m
ensures [C13] gAt(o, o.DistID) == nil && (forall p int, r int, n int :: {rndOk(r, p, n)} p >= old(rand) ==> rndOk(r, p, n)) && !g.SenderKeyStore.failed ==> err == nil
ensures [C13] gAt(o, o.DistID) != nil && len(val(gAt(o, o.DistID)).states) > 0 && pubOk(gPub(gSt(o, o.DistID))) && !g.SenderKeyStore.failed ==> err == nil
ensures [C13] err == nil && gAt(o, o.DistID) == nil ==> gStored(o, g, o.DistID, session.GroupRecord{states: unit(some(gSt(g, o.DistID)))})
ensures [C13,C11,C05] err == nil && gAt(o, o.DistID) == nil ==> exists i int, j int, k int :: {rnd(randReader(), i, 4), rnd(rdOf(random), j, 32), rnd(rdOf(random), k, 32)} old(rand) <= i && i < rand && old(rand) <= j && j < rand && old(rand) <= k && k < rand && i != j && j != k && i != k && gFresh(gSt(g, o.DistID), rnd(randReader(), i, 4), rnd(rdOf(random), j, 32), clampF(rnd(rdOf(random), k, 32)))
ensures [C08] err != nil ==> gSame(o, g)
