// ---- end results: what the contracts above add up to

// the identifiers which SetUnacknowledgedPreKeyMessage stores are the ones UnacknowledgedPreKeyMessages returns
def unackIs(u session.UnacknowledgedPreKeyMessageItems, pk opt<int>, spk int, base curve.PublicKey) bool = u.preKeyID == pk && u.signedPreKeyID == spk && u.baseKey == base
lemma [C21] pendingKept: forall pk opt<int>, spk u32, base curve.PublicKey :: base != nil && inv(base) && pk != some(0) ==> unackIs(unackOf(pendingOf(pk, spk, base)), pk, spk, base)
lemma [C21] pendingZeroKept: forall pk opt<int>, spk u32, base curve.PublicKey :: base != nil && inv(base) && pk == some(0) ==> unackIs(unackOf(pendingOf(pk, spk, base)), pk, spk, base)

// ---- C02, C03: what an accepted message leaves behind
// looking for a key in a longer list, up to n, is looking in its beginning
lemma findPrefix induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, x opt<v1.SessionStructure_Chain_MessageKey>, c int, n int :: {findMK(l ++ unit(x), c, n)} (n <= len(l)) ==> findMK(l ++ unit(x), c, n) == findMK(l, c, n)
lemma keepLen induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {keepMK(l, c, n)} len(keepMK(l, c, n)) <= ite(n < 0, 0, n)
// a key taken is gone, and no other one is
lemma takenGone induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {findMK(keepMK(l, c, n), c, len(keepMK(l, c, n)))} findMK(keepMK(l, c, n), c, len(keepMK(l, c, n))) == nil
lemma othersStay induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, d int, n int :: {findMK(keepMK(l, c, n), d, len(keepMK(l, c, n)))} (d != c && n <= len(l)) ==> findMK(keepMK(l, c, n), d, len(keepMK(l, c, n))) == findMK(l, d, n)
// the keys saved on skipping n messages
lemma pushLen induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int :: {pushTo(l, k, i, n)} (len(l) <= 2000 && 0 <= n) ==> len(pushTo(l, k, i, n)) == ite(len(l) + n > 2000, 2000, len(l) + n)
lemma pushElt induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int, q int :: {pushTo(l, k, i, n)[q]} (len(l) <= 2000 && 0 <= q && 0 <= n && q < len(pushTo(l, k, i, n)) && q >= len(pushTo(l, k, i, n)) - n) ==> pushTo(l, k, i, n)[q] == some(mkPb(mkOf(ckAt(k, n - len(pushTo(l, k, i, n)) + q), i + n - len(pushTo(l, k, i, n)) + q)))
lemma pushOld induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int, q int :: {pushTo(l, k, i, n)[q]} (len(l) <= 2000 && 0 <= q && 0 <= n && q < len(pushTo(l, k, i, n)) - n) ==> pushTo(l, k, i, n)[q] == l[q + len(l) + n - len(pushTo(l, k, i, n))]
lemma findNone induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {findMK(l, c, n)} (n <= len(l) && (forall q int :: {l[q]} (0 <= q && q < n) ==> mkIdx(l[q]) != c)) ==> findMK(l, c, n) == nil
lemma findLast induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int, p int :: {findMK(l, c, n), l[p]} (n <= len(l) && 0 <= p && p < n && l[p] != nil && mkIdx(l[p]) == c && (forall q int :: {l[q]} (p < q && q < n) ==> mkIdx(l[q]) != c)) ==> findMK(l, c, n) == l[p]
lemma pushFound: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int, c int :: {findMK(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n)))} (len(l) <= 2000 && i <= c && c < i + n && i + n - c <= 2000) ==> findMK(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n))) == pushTo(l, k, i, n)[len(pushTo(l, k, i, n)) - (i + n - c)]
lemma pushOthers induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int, c int :: {findMK(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n)))} (len(l) + n <= 2000 && c < i) ==> findMK(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n))) == findMK(l, c, len(l))
// all keys are for counters under b
opaque below(l list<opt<v1.SessionStructure_Chain_MessageKey>>, b int) bool = forall q int :: {l[q]} (0 <= q && q < len(l)) ==> mkIdx(l[q]) < b
lemma belowElt reveal below: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, b int, q int :: {below(l, b), l[q]} (below(l, b) && 0 <= q && q < len(l)) ==> mkIdx(l[q]) < b
lemma belowEmpty reveal below: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, b int :: {below(l, b)} len(l) == 0 ==> below(l, b)
lemma belowMore reveal below: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, a int, b int :: {below(l, a), below(l, b)} (below(l, a) && a <= b) ==> below(l, b)
lemma belowNone: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, b int, c int, n int :: {below(l, b), findMK(l, c, n)} (below(l, b) && b <= c && n <= len(l)) ==> findMK(l, c, n) == nil
lemma pushBelow reveal below: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int :: {below(l, i), pushTo(l, k, i, n)} (len(l) <= 2000 && below(l, i) && n >= 0) ==> below(pushTo(l, k, i, n), i + n)
lemma keepBelow reveal below induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, b int, n int :: {below(l, b), keepMK(l, c, n)} (n <= len(l) && below(l, b)) ==> below(keepMK(l, c, n), b)
// saved keys are older than the chain's position, and at most 2000
opaque chainTidy(c opt<v1.SessionStructure_Chain>) bool = c != nil && len(val(c).MessageKeys) <= 2000 && below(val(c).MessageKeys, ckOf(val(c).ChainKey).index)
opaque tidyL(l list<opt<v1.SessionStructure_Chain>>) bool = forall j int :: {l[j]} (0 <= j && j < len(l)) ==> chainTidy(l[j])
def tidy(s session.State) bool = tidyL(ses(s).ReceiverChains)
lemma tidyAt reveal tidyL: forall l list<opt<v1.SessionStructure_Chain>>, j int :: {tidyL(l), l[j]} (tidyL(l) && 0 <= j && j < len(l)) ==> chainTidy(l[j])
lemma tidyUpd reveal tidyL: forall l list<opt<v1.SessionStructure_Chain>>, j int, c opt<v1.SessionStructure_Chain> :: {tidyL(l), upd(l, j, c)} (tidyL(l) && chainTidy(c) && 0 <= j && j < len(l)) ==> tidyL(upd(l, j, c))
lemma tidyPush reveal tidyL: forall l list<opt<v1.SessionStructure_Chain>>, c opt<v1.SessionStructure_Chain> :: {tidyL(l), l ++ unit(c)} (tidyL(l) && chainTidy(c)) ==> tidyL(dropOver(l ++ unit(c), 5))
lemma tidyNew reveal chainTidy: forall k bytes, ck bytes :: {chainTidy(some(chainPb(k, [], ck, 0)))} chainTidy(some(chainPb(k, [], ck, 0)))
lemma keptTidy reveal chainTidy: forall c v1.SessionStructure_Chain, n int :: {chainTidy(some(c)), keepMK(c.MessageKeys, n, len(c.MessageKeys))} chainTidy(some(c)) ==> chainTidy(some(c with {MessageKeys: keepMK(c.MessageKeys, n, len(c.MessageKeys))}))
lemma aheadTidy reveal chainTidy: forall c v1.SessionStructure_Chain, k bytes, x int, d int, k2 bytes, i int :: {chainTidy(some(c)), pushTo(c.MessageKeys, k, x, d), ckPb(ratchet.ChainKey{key: k2, index: i})} (chainTidy(some(c)) && x == ckOf(c.ChainKey).index && d >= 0 && i >= x + d) ==> chainTidy(some(c with {MessageKeys: pushTo(c.MessageKeys, k, x, d), ChainKey: some(ckPb(ratchet.ChainKey{key: k2, index: i}))}))
def last() int = 4294967295
lemma tidyStep: forall s session.State, k curve.PublicKey, r bytes :: (s.session != nil && tidy(s)) ==> tidy(chainSt(s, k, r))
lemma stepKey: forall s session.State, k curve.PublicKey, r bytes :: (s.session != nil && k != nil && rcv(chainSt(s, k, r), k) >= 0 && len(ses(s).ReceiverChains) >= 0) ==> ckOf(rcvChain(chainSt(s, k, r), k).ChainKey) == chainCK(s, k)
lemma tidyUse: forall s session.State, m message.Signal, r bytes :: (s.session != nil && inv(m) && rcv(chainSt(s, m.senderRatchetKey, r), m.senderRatchetKey) >= 0 && m.counter < last() && m.counter >= 0 && chainTidy(some(dChain(s, m, r)))) ==> chainTidy(some(dNewChain(s, m, r)))
lemma [C02,C03] tidyKept reveal advances: forall s session.State, m message.Signal, s2 session.State :: (inv(m) && s.session != nil && m.counter >= 0 && m.counter < last() && tidy(s) && advances(s, m, s2)) ==> tidy(s2)

lemma ckAtAdd induct n: forall k bytes, i int, n int :: {ckAt(ckAt(k, i), n)} (i >= 0) ==> ckAt(ckAt(k, i), n) == ckAt(k, i + n)
// a chain's key for a counter: saved, or derived from the chain key; nil if it is gone
opaque keyFor(c v1.SessionStructure_Chain, n int) opt<v1.SessionStructure_Chain_MessageKey> = ite(n < ckOf(c.ChainKey).index, findMK(c.MessageKeys, n, len(c.MessageKeys)), some(mkPb(mkOf(ckAt(ckOf(c.ChainKey).key, n - ckOf(c.ChainKey).index), n))))
// the chain after the key for a counter was used
opaque useKey(c v1.SessionStructure_Chain, n int) v1.SessionStructure_Chain = ite(n < ckOf(c.ChainKey).index, c with {MessageKeys: keepMK(c.MessageKeys, n, len(c.MessageKeys))}, c with {MessageKeys: pushTo(c.MessageKeys, ckOf(c.ChainKey).key, ckOf(c.ChainKey).index, n - ckOf(c.ChainKey).index), ChainKey: some(ckPb(ratchet.ChainKey{key: ckAt(ckOf(c.ChainKey).key, n - ckOf(c.ChainKey).index + 1), index: (n + 1) % 4294967296}))})
def room(c v1.SessionStructure_Chain, n int) bool = len(c.MessageKeys) + ite(n > ckOf(c.ChainKey).index, n - ckOf(c.ChainKey).index, 0) <= 2000
lemma [C02] keyGone reveal keyFor reveal useKey reveal chainTidy: forall c v1.SessionStructure_Chain, n int :: (chainTidy(some(c)) && 0 <= n && n < last()) ==> keyFor(useKey(c, n), n) == nil
lemma [C03] keyLater reveal keyFor reveal useKey reveal chainTidy: forall c v1.SessionStructure_Chain, n int, n2 int :: {keyFor(useKey(c, n), n2)} (chainTidy(some(c)) && 0 <= n && n < n2 && n2 >= ckOf(c.ChainKey).index && n < last()) ==> keyFor(useKey(c, n), n2) == keyFor(c, n2)
lemma [C03] keySkipped reveal keyFor reveal useKey reveal chainTidy: forall c v1.SessionStructure_Chain, n int, n2 int :: {keyFor(useKey(c, n), n2)} (chainTidy(some(c)) && 0 <= n2 && n2 < n && n2 >= ckOf(c.ChainKey).index && n - n2 <= 2000 && n < last()) ==> keyFor(useKey(c, n), n2) == keyFor(c, n2)
lemma [C03] keySaved reveal keyFor reveal useKey reveal chainTidy: forall c v1.SessionStructure_Chain, n int, n2 int :: {keyFor(useKey(c, n), n2)} (chainTidy(some(c)) && 0 <= n2 && n2 < ckOf(c.ChainKey).index && n != n2 && room(c, n) && n < last() && n >= 0) ==> keyFor(useKey(c, n), n2) == keyFor(c, n2)
// a decrypted message uses its key in the chain of its ratchet key, and changes nothing else in its chains
opaque stAt(s session.State, k curve.PublicKey, r bytes) session.State = chainSt(s, k, r)
lemma stAtSet reveal stAt: forall s session.State, k curve.PublicKey, r bytes :: {stAt(s, k, r)} s.session != nil ==> stAt(s, k, r).session != nil
lemma stAtTidy reveal stAt: forall s session.State, k curve.PublicKey, r bytes :: (s.session != nil && tidy(s) && tidyStep(s, k, r)) ==> tidy(stAt(s, k, r))
def after(s session.State, k curve.PublicKey, n int) session.State = noPend(setRcv(s, k, useKey(rcvChain(s, k), n)))
lemma keyIs reveal keyFor reveal stAt: forall s session.State, m message.Signal, r bytes :: (s.session != nil && inv(m) && rcv(stAt(s, m.senderRatchetKey, r), m.senderRatchetKey) >= 0 && stepKey(s, m.senderRatchetKey, r)) ==> keyFor(rcvChain(stAt(s, m.senderRatchetKey, r), m.senderRatchetKey), m.counter) == ite(dOld(s, m), dKept(s, m, r), some(mkPb(dMK(s, m, r))))
lemma newIsUse reveal useKey: forall s session.State, m message.Signal, r bytes :: (s.session != nil && inv(m) && rcv(chainSt(s, m.senderRatchetKey, r), m.senderRatchetKey) >= 0 && stepKey(s, m.senderRatchetKey, r)) ==> dNewChain(s, m, r) == useKey(dChain(s, m, r), m.counter)
lemma afterChain reveal useKey: forall s session.State, k curve.PublicKey, n int :: (s.session != nil && k != nil && rcv(s, k) >= 0) ==> rcv(after(s, k, n), k) == rcv(s, k) && rcvChain(after(s, k, n), k) == useKey(rcvChain(s, k), n)
lemma otherUpd: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, key2 bytes, c opt<v1.SessionStructure_Chain> :: (key != key2 && firstChain(l, key) >= 0 && firstChain(l, key2) >= 0 && c != nil && val(c).SenderRatchetKey == key) ==> firstChain(upd(l, firstChain(l, key), c), key2) == firstChain(l, key2) && (l[firstChain(l, key)] != nil ==> firstChain(l, key) != firstChain(l, key2))
lemma sameStart: forall l list<opt<v1.SessionStructure_Chain>>, a list<opt<v1.SessionStructure_Chain>>, key bytes :: (len(a) >= len(l) && firstChain(l, key) >= 0 && (forall j int :: {a[j]} (0 <= j && j < len(l)) ==> a[j] == l[j]) && (forall j int :: {l[j]} (0 <= j && j < len(l)) ==> a[j] == l[j])) ==> firstChain(a, key) == firstChain(l, key)
lemma sameTail: forall l list<opt<v1.SessionStructure_Chain>>, a list<opt<v1.SessionStructure_Chain>>, key bytes :: (len(a) >= len(l) - 1 && firstChain(l, key) >= 1 && (forall j int :: {a[j]} (0 <= j && j < len(l) - 1) ==> a[j] == l[j + 1]) && (forall j int :: {l[j]} (1 <= j && j < len(l)) ==> a[j - 1] == l[j])) ==> firstChain(a, key) == firstChain(l, key) - 1
lemma otherPush: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, c opt<v1.SessionStructure_Chain> :: (firstChain(l, key) >= 0 && sameStart(l, l ++ unit(c), key)) ==> firstChain(l ++ unit(c), key) == firstChain(l, key)
lemma otherDrop: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, c opt<v1.SessionStructure_Chain> :: (firstChain(l, key) >= 1 && sameTail(l, (l ++ unit(c))[1:len(l) + 1], key)) ==> firstChain((l ++ unit(c))[1:len(l) + 1], key) == firstChain(l, key) - 1
lemma afterOther reveal useKey: forall s session.State, k curve.PublicKey, n int, k2 curve.PublicKey :: (s.session != nil && k != nil && k2 != nil && rcv(s, k) >= 0 && rcv(s, k2) >= 0 && encPub(k) != encPub(k2) && ses(s).ReceiverChains[rcv(s, k)] != nil && otherUpd(ses(s).ReceiverChains, encPub(k), encPub(k2), some(useKey(rcvChain(s, k), n)))) ==> rcv(after(s, k, n), k2) == rcv(s, k2) && rcvChain(after(s, k, n), k2) == rcvChain(s, k2)
def newChain(s session.State, k bytes) opt<v1.SessionStructure_Chain> = some(chainPb("\x05" ++ k, [], stepO1(s, k)[32:64], 0))
lemma stepOther reveal stAt: forall s session.State, k curve.PublicKey, r bytes, k2 curve.PublicKey :: (s.session != nil && k != nil && k2 != nil && encPub(k) != encPub(k2) && rcv(s, k2) >= 0 && (rcv(s, k) >= 0 || len(ses(s).ReceiverChains) < 5 || rcv(s, k2) >= 1) && otherPush(ses(s).ReceiverChains, encPub(k2), newChain(s, val(k).key)) && otherDrop(ses(s).ReceiverChains, encPub(k2), newChain(s, val(k).key))) ==> rcv(stAt(s, k, r), k2) >= 0 && rcvChain(stAt(s, k, r), k2) == rcvChain(s, k2)
def advChain(s session.State, m message.Signal, s2 session.State) v1.SessionStructure_Chain = rcvChain(stAt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey)
lemma advancesIs reveal advances reveal stAt: forall s session.State, m message.Signal, s2 session.State :: (s.session != nil && inv(m) && advances(s, m, s2) && newIsUse(s, m, newPriv(s2)) && keyIs(s, m, newPriv(s2))) ==> rcv(stAt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey) >= 0 && s2 == after(stAt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey, m.counter) && keyFor(advChain(s, m, s2), m.counter) != nil
lemma usesUp: forall s session.State, m message.Signal, s2 session.State, m2 message.Signal :: (inv(m) && inv(m2) && s.session != nil && m.counter >= 0 && m.counter < last() && tidy(s) && advances(s, m, s2) && m2.senderRatchetKey == m.senderRatchetKey && m2.counter == m.counter && advancesIs(s, m, s2) && stAtTidy(s, m.senderRatchetKey, newPriv(s2)) && afterChain(stAt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey, m.counter) && keyGone(advChain(s, m, s2), m.counter)) ==> rcv(s2, m2.senderRatchetKey) >= 0 && keyFor(rcvChain(s2, m2.senderRatchetKey), m2.counter) == nil
lemma stSame reveal stAt: forall s session.State, k curve.PublicKey, r bytes :: rcv(s, k) >= 0 ==> stAt(s, k, r) == s
// n can be decrypted with state s and key f
def canUse(s session.State, n message.Signal, f opt<v1.SessionStructure_Chain_MessageKey>) bool = sndOk(s) && n.version == verOf(s) && rcv(s, n.senderRatchetKey) >= 0 && len(ckOf(rcvChain(s, n.senderRatchetKey).ChainKey).key) == 32 && f != nil && mkGood(val(f)) && !dFar(s, n) && remOk(s) && locOk(s) && sigMacOk(n, val(f).MacKey, remId(s), locId(s)) && ctOk(n, mkVal(val(f), n.counter))
lemma deliverIs reveal deliverable reveal stAt: forall s session.State, n message.Signal :: (s.session != nil && inv(n) && keyIs(s, n, []) && rcv(s, n.senderRatchetKey) >= 0) ==> (deliverable(s, n) <==> canUse(s, n, keyFor(rcvChain(s, n.senderRatchetKey), n.counter)))
lemma usedIs reveal used reveal keyFor: forall s session.State, m message.Signal :: (s.session != nil && inv(m) && rcv(s, m.senderRatchetKey) >= 0 && keyFor(rcvChain(s, m.senderRatchetKey), m.counter) == nil) ==> used(s, m)
// the message just accepted, or one with the same ratchet key and counter, is not accepted again
lemma [C02] onceOnly: forall s session.State, m message.Signal, s2 session.State, m2 message.Signal :: (inv(m) && inv(m2) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && tidy(s) && advances(s, m, s2) && m2.senderRatchetKey == m.senderRatchetKey && m2.counter == m.counter && usesUp(s, m, s2, m2) && usedIs(s2, m2)) ==> used(s2, m2)
// which counters a chain still decrypts after n: later ones, skipped ones up to 2000 back, and saved ones unless pushed out
def keeps(c v1.SessionStructure_Chain, n int, n2 int) bool = n2 != n && (n2 > n && n2 >= ckOf(c.ChainKey).index || n2 >= ckOf(c.ChainKey).index && n - n2 <= 2000 || n2 < ckOf(c.ChainKey).index && room(c, n))
lemma keepsKey: forall c v1.SessionStructure_Chain, n int, n2 int :: (chainTidy(some(c)) && 0 <= n && 0 <= n2 && n < last() && keeps(c, n, n2) && keyLater(c, n, n2) && keySkipped(c, n, n2) && keySaved(c, n, n2)) ==> keyFor(useKey(c, n), n2) == keyFor(c, n2)
lemma useKeyChain reveal useKey: forall c v1.SessionStructure_Chain, n int :: {useKey(c, n)} (n >= 0 && n < last()) ==> ckOf(useKey(c, n).ChainKey).index >= ckOf(c.ChainKey).index && (len(ckOf(c.ChainKey).key) == 32 ==> len(ckOf(useKey(c, n).ChainKey).key) == 32)
// an accepted message leaves the others of its chain deliverable
lemma canUseKept: forall s session.State, n message.Signal, f opt<v1.SessionStructure_Chain_MessageKey>, k int :: (s.session != nil && inv(n) && k >= 0 && k < last() && canUse(s, n, f) && afterChain(s, n.senderRatchetKey, k)) ==> canUse(after(s, n.senderRatchetKey, k), n, f)
lemma [C03] laterSame: forall s session.State, m message.Signal, s2 session.State, n message.Signal :: (inv(m) && inv(n) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && n.counter >= 0 && tidy(s) && advances(s, m, s2) && n.senderRatchetKey == m.senderRatchetKey && deliverable(s, n) && keeps(rcvChain(s, n.senderRatchetKey), m.counter, n.counter) && rcv(s, n.senderRatchetKey) >= 0 && advancesIs(s, m, s2) && stSame(s, m.senderRatchetKey, newPriv(s2)) && deliverIs(s, n) && deliverIs(s2, n) && afterChain(s, m.senderRatchetKey, m.counter) && keepsKey(rcvChain(s, m.senderRatchetKey), m.counter, n.counter) && canUseKept(s, n, keyFor(rcvChain(s, n.senderRatchetKey), n.counter), m.counter)) ==> deliverable(s2, n)
// after a message m, also one that began its chain, the key for n in the same chain is the one n would have had before
lemma advKept: forall s session.State, m message.Signal, s2 session.State, c int :: (inv(m) && s.session != nil && m.counter >= 0 && m.counter < last() && c >= 0 && tidy(s) && advances(s, m, s2) && keeps(advChain(s, m, s2), m.counter, c) && advancesIs(s, m, s2) && tidyStep(s, m.senderRatchetKey, newPriv(s2)) && stAtTidy(s, m.senderRatchetKey, newPriv(s2)) && afterChain(stAt(s, m.senderRatchetKey, newPriv(s2)), m.senderRatchetKey, m.counter) && keepsKey(advChain(s, m, s2), m.counter, c)) ==> rcv(s2, m.senderRatchetKey) >= 0 && keyFor(rcvChain(s2, m.senderRatchetKey), c) == keyFor(advChain(s, m, s2), c)
lemma newChainKey reveal stAt reveal keyFor: forall s session.State, k curve.PublicKey, r bytes, c int :: (s.session != nil && k != nil && rcv(s, k) < 0 && rcv(stAt(s, k, r), k) >= 0 && c >= 0 && stepKey(s, k, r)) ==> keyFor(rcvChain(stAt(s, k, r), k), c) == some(mkPb(mkOf(ckAt(stepO1(s, val(k).key)[32:64], c), c))) && ckOf(rcvChain(stAt(s, k, r), k).ChainKey).index == 0
lemma [C03] skippedInNewChain: forall s session.State, m message.Signal, s2 session.State, c int :: (inv(m) && s.session != nil && m.counter >= 0 && m.counter < last() && c >= 0 && c != m.counter && m.counter - c <= 2000 && tidy(s) && advances(s, m, s2) && rcv(s, m.senderRatchetKey) < 0 && advancesIs(s, m, s2) && newChainKey(s, m.senderRatchetKey, newPriv(s2), c) && advKept(s, m, s2, c)) ==> keyFor(rcvChain(s2, m.senderRatchetKey), c) == some(mkPb(mkOf(ckAt(stepO1(s, val(m.senderRatchetKey).key)[32:64], c), c)))
// messages of other chains stay deliverable, while their chain is among the five kept
def chainKept(s session.State, k curve.PublicKey, k2 curve.PublicKey) bool = encPub(k) != encPub(k2) && (rcv(s, k) >= 0 || len(ses(s).ReceiverChains) < 5 || rcv(s, k2) >= 1)
lemma stepSame reveal stAt: forall s session.State, k curve.PublicKey, r bytes :: s.session != nil ==> sndOk(stAt(s, k, r)) == (rcv(s, k) < 0 || sndOk(s)) && verOf(stAt(s, k, r)) == verOf(s) && remOk(stAt(s, k, r)) == remOk(s) && locOk(stAt(s, k, r)) == locOk(s) && remId(stAt(s, k, r)) == remId(s) && locId(stAt(s, k, r)) == locId(s)
lemma canUseOther: forall s session.State, n message.Signal, f opt<v1.SessionStructure_Chain_MessageKey>, k curve.PublicKey, c int :: (s.session != nil && inv(n) && k != nil && rcv(s, k) >= 0 && ses(s).ReceiverChains[rcv(s, k)] != nil && encPub(k) != encPub(n.senderRatchetKey) && canUse(s, n, f) && afterOther(s, k, c, n.senderRatchetKey)) ==> canUse(after(s, k, c), n, f)
lemma canUseStep: forall s session.State, n message.Signal, f opt<v1.SessionStructure_Chain_MessageKey>, k curve.PublicKey, r bytes :: (s.session != nil && inv(n) && k != nil && chainKept(s, k, n.senderRatchetKey) && canUse(s, n, f) && stepSame(s, k, r) && stepOther(s, k, r, n.senderRatchetKey)) ==> canUse(stAt(s, k, r), n, f)
lemma deliverRcv reveal deliverable: forall s session.State, n message.Signal :: deliverable(s, n) ==> rcv(s, n.senderRatchetKey) >= 0
lemma afterSes: forall s session.State, k curve.PublicKey, n int :: s.session != nil ==> after(s, k, n).session != nil
lemma atChain: forall s session.State, k curve.PublicKey :: (s.session != nil && tidy(s) && k != nil && rcv(s, k) >= 0) ==> chainTidy(ses(s).ReceiverChains[rcv(s, k)])
lemma tidyThere reveal chainTidy: forall c opt<v1.SessionStructure_Chain> :: chainTidy(c) ==> c != nil
def stp(s session.State, m message.Signal, s2 session.State) session.State = stAt(s, m.senderRatchetKey, newPriv(s2))
lemma [C03] laterOther: forall s session.State, m message.Signal, s2 session.State, n message.Signal :: (inv(m) && inv(n) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && n.counter >= 0 && tidy(s) && advances(s, m, s2) && deliverable(s, n) && chainKept(s, m.senderRatchetKey, n.senderRatchetKey) && advancesIs(s, m, s2) && deliverRcv(s, n) && deliverIs(s, n) && tidyStep(s, m.senderRatchetKey, newPriv(s2)) && stAtTidy(s, m.senderRatchetKey, newPriv(s2)) && atChain(stp(s, m, s2), m.senderRatchetKey) && tidyThere(ses(stp(s, m, s2)).ReceiverChains[rcv(stp(s, m, s2), m.senderRatchetKey)]) && stepOther(s, m.senderRatchetKey, newPriv(s2), n.senderRatchetKey) && canUseStep(s, n, keyFor(rcvChain(s, n.senderRatchetKey), n.counter), m.senderRatchetKey, newPriv(s2)) && afterOther(stp(s, m, s2), m.senderRatchetKey, m.counter, n.senderRatchetKey) && canUseOther(stp(s, m, s2), n, keyFor(rcvChain(s, n.senderRatchetKey), n.counter), m.senderRatchetKey, m.counter) && deliverIs(s2, n)) ==> deliverable(s2, n)
// a used key stays used
opaque absent(l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int) bool = forall q int :: {l[q]} (0 <= q && q < n) ==> mkIdx(l[q]) != c
lemma absentBase reveal absent: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int :: {absent(l, c, 0)} absent(l, c, 0)
lemma absentNext reveal absent: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {absent(l, c, n), l[n]} (n >= 0 && absent(l, c, n) && mkIdx(l[n]) != c) ==> absent(l, c, n + 1)
lemma absentNone reveal absent: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {absent(l, c, n)} (n <= len(l) && absent(l, c, n)) ==> findMK(l, c, n) == nil
lemma noneAbsent reveal absent induct n: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: {absent(l, c, n)} (0 <= n && n <= len(l) && findMK(l, c, n) == nil) ==> absent(l, c, n)
lemma pushAbsent reveal absent: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, k bytes, i int, n int, c int :: {absent(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n)))} (len(l) <= 2000 && n >= 0 && c < i && absent(l, c, len(l))) ==> absent(pushTo(l, k, i, n), c, len(pushTo(l, k, i, n)))
lemma keepAbsent: forall l list<opt<v1.SessionStructure_Chain_MessageKey>>, c int, n int :: findMK(l, c, len(l)) == nil ==> findMK(keepMK(l, n, len(l)), c, len(keepMK(l, n, len(l)))) == nil
lemma keyStays reveal keyFor reveal useKey reveal chainTidy: forall c v1.SessionStructure_Chain, n int, n2 int :: (chainTidy(some(c)) && 0 <= n && n < last() && 0 <= n2 && keyFor(c, n2) == nil && keepAbsent(c.MessageKeys, n2, n) && noneAbsent(c.MessageKeys, n2, len(c.MessageKeys)) && pushAbsent(c.MessageKeys, ckOf(c.ChainKey).key, ckOf(c.ChainKey).index, n - ckOf(c.ChainKey).index, n2)) ==> keyFor(useKey(c, n), n2) == nil
lemma usedThere reveal used reveal keyFor: forall s session.State, m message.Signal :: (s.session != nil && inv(m) && rcv(s, m.senderRatchetKey) >= 0 && used(s, m)) ==> keyFor(rcvChain(s, m.senderRatchetKey), m.counter) == nil
lemma usedSame: forall s session.State, m message.Signal, s2 session.State, n message.Signal :: (inv(m) && inv(n) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && n.counter >= 0 && tidy(s) && advances(s, m, s2) && used(s, n) && rcv(s, n.senderRatchetKey) >= 0 && n.senderRatchetKey == m.senderRatchetKey && advancesIs(s, m, s2) && stSame(s, m.senderRatchetKey, newPriv(s2)) && afterChain(s, m.senderRatchetKey, m.counter) && atChain(s, m.senderRatchetKey) && tidyThere(ses(s).ReceiverChains[rcv(s, m.senderRatchetKey)]) && usedThere(s, n) && keyStays(rcvChain(s, n.senderRatchetKey), m.counter, n.counter) && usedIs(s2, n)) ==> used(s2, n)
lemma usedOther: forall s session.State, m message.Signal, s2 session.State, n message.Signal :: (inv(m) && inv(n) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && n.counter >= 0 && tidy(s) && advances(s, m, s2) && used(s, n) && rcv(s, n.senderRatchetKey) >= 0 && chainKept(s, m.senderRatchetKey, n.senderRatchetKey) && advancesIs(s, m, s2) && tidyStep(s, m.senderRatchetKey, newPriv(s2)) && stAtTidy(s, m.senderRatchetKey, newPriv(s2)) && atChain(stp(s, m, s2), m.senderRatchetKey) && tidyThere(ses(stp(s, m, s2)).ReceiverChains[rcv(stp(s, m, s2), m.senderRatchetKey)]) && stepOther(s, m.senderRatchetKey, newPriv(s2), n.senderRatchetKey) && afterOther(stp(s, m, s2), m.senderRatchetKey, m.counter, n.senderRatchetKey) && usedThere(s, n) && usedIs(s2, n)) ==> used(s2, n)
// a message once accepted stays refused, whatever is accepted after it, as long as its chain is kept
lemma [C02] usedStays: forall s session.State, m message.Signal, s2 session.State, n message.Signal :: (inv(m) && inv(n) && s.session != nil && s2.session != nil && m.counter >= 0 && m.counter < last() && n.counter >= 0 && tidy(s) && advances(s, m, s2) && used(s, n) && rcv(s, n.senderRatchetKey) >= 0 && (n.senderRatchetKey == m.senderRatchetKey || chainKept(s, m.senderRatchetKey, n.senderRatchetKey)) && usedSame(s, m, s2, n) && usedOther(s, m, s2, n)) ==> used(s2, n)

// ---- C04: both ends compute the same secrets, from the first message and with every ratchet step
lemma [C04] sameSecret: forall ia bytes, ea bytes, spk bytes, ib bytes, opk opt<bytes> :: aSecret(ia, ea, pubOf(spk), pubOf(ib), ite(opk == nil, nil, some(pubOf(val(opk))))) == bSecret(spk, ib, opk, pubOf(ia), pubOf(ea))
// the two ends of a session: each one's remote identity is the other
opaque ends(a session.State, b session.State) bool = verOf(a) == 3 && verOf(b) == 3 && remOk(a) && locOk(a) && remOk(b) && locOk(b) && remId(a) == locId(b) && locId(a) == remId(b)
def sndCK(a session.State) ratchet.ChainKey = ckOf(snd(a).ChainKey)
def sndPub(a session.State) curve.PublicKey = mkPub(snd(a).SenderRatchetKey[1:33])
// b's receiving chain for a's ratchet key is a's sending chain, at the same place or behind
opaque feeds(a session.State, b session.State) bool = sndOk(a) && sndOk(b) && chainCK(b, sndPub(a)).index <= sndCK(a).index && chainCK(b, sndPub(a)).index >= 0 && len(chainCK(b, sndPub(a)).key) == 32 && sndCK(a).key == ckAt(chainCK(b, sndPub(a)).key, sndCK(a).index - chainCK(b, sndPub(a)).index)
lemma encIs reveal feeds: forall a session.State, b session.State, p bytes :: (a.session != nil && b.session != nil && feeds(a, b) && pubOk(snd(a).SenderRatchetKey)) ==> dMK(b, encMsg(a, p), []) == encMK(a) && !dOld(b, encMsg(a, p)) && encMsg(a, p).counter == sndCK(a).index && encMsg(a, p).senderRatchetKey == sndPub(a)
lemma macIs reveal ends: forall a session.State, b session.State, p bytes :: (a.session != nil && b.session != nil && ends(a, b) && pubOk(snd(a).SenderRatchetKey)) ==> sigMacOk(encMsg(a, p), encMK(a).macKey, remId(b), locId(b))
opaque opens(k ratchet.MessageKeys, ct bytes, p bytes) bool = len(ct) > 0 && len(ct) % 16 == 0 && padOk(cbcDec(k.cipherKey, k.iv, ct)) && unpad(cbcDec(k.cipherKey, k.iv, ct)) == p
lemma ctIs reveal opens: forall a session.State, p bytes :: a.session != nil ==> opens(encMK(a), encMsg(a, p).ciphertext, p)
lemma opensIs reveal opens: forall s session.State, m message.Signal, r bytes, p bytes :: (s.session != nil && inv(m) && opens(dMK(s, m, r), m.ciphertext, p)) ==> ctOk(m, dMK(s, m, r)) && dPlain(s, m, r) == p
lemma dmkAny: forall s session.State, m message.Signal, r bytes :: !dOld(s, m) ==> dMK(s, m, r) == dMK(s, m, [])
// what a encrypts, b decrypts to the same bytes
lemma [C04] sameBytes: forall a session.State, b session.State, p bytes, r bytes :: (a.session != nil && b.session != nil && feeds(a, b) && ends(a, b) && pubOk(snd(a).SenderRatchetKey) && remOk(b) && locOk(b) && encIs(a, b, p) && macIs(a, b, p) && ctIs(a, p) && dmkAny(b, encMsg(a, p), r) && opensIs(b, encMsg(a, p), r, p)) ==> dAuth(b, encMsg(a, p), r) && ctOk(encMsg(a, p), dMK(b, encMsg(a, p), r)) && dPlain(b, encMsg(a, p), r) == p
lemma [C04] decryptsSame reveal authentic: forall a session.State, b session.State, p bytes, pt bytes, b2 session.State :: (a.session != nil && b.session != nil && feeds(a, b) && ends(a, b) && pubOk(snd(a).SenderRatchetKey) && remOk(b) && locOk(b) && sameBytes(a, b, p, newPriv(b2)) && authentic(b, encMsg(a, p), pt, b2)) ==> pt == p
lemma endsVer reveal ends: forall a session.State, b session.State :: ends(a, b) ==> verOf(a) == 3 && verOf(b) == 3 && remOk(b) && locOk(b) && remOk(a) && locOk(a) && ends(b, a)
lemma feedsLen reveal feeds: forall a session.State, b session.State :: feeds(a, b) ==> sndOk(b) && sndOk(a) && len(chainCK(b, sndPub(a)).key) == 32
lemma [C04] deliversSame reveal deliverable: forall a session.State, b session.State, p bytes :: (a.session != nil && b.session != nil && feeds(a, b) && ends(a, b) && pubOk(snd(a).SenderRatchetKey) && rcv(b, sndPub(a)) >= 0 && !dFar(b, encMsg(a, p)) && endsVer(a, b) && encIs(a, b, p) && feedsLen(a, b) && sameBytes(a, b, p, [])) ==> deliverable(b, encMsg(a, p))
// a has a ratchet key which b has not seen; b's next ratchet step gives b the root key and the sending chain which a has
opaque ahead(a session.State, b session.State) bool = sndOk(a) && sndOk(b) && rcv(b, sndPub(a)) < 0 && len(ses(a).RootKey) == 32 && ses(a).RootKey == stepO1(b, val(sndPub(a)).key)[0:32] && sndCK(a).index >= 0 && sndCK(a).key == ckAt(stepO1(b, val(sndPub(a)).key)[32:64], sndCK(a).index) && len(snd(a).SenderRatchetKeyPrivate) == 32 && clampF(snd(a).SenderRatchetKeyPrivate) == snd(a).SenderRatchetKeyPrivate && snd(a).SenderRatchetKey == "\x05" ++ pubOf(snd(a).SenderRatchetKeyPrivate)
lemma aheadFeeds reveal ahead reveal feeds: forall a session.State, b session.State :: (a.session != nil && b.session != nil && ahead(a, b)) ==> feeds(a, b)
// the states which the two ends begin with
def startA(s session.State, me identity.Key, them identity.Key, sec bytes, k bytes, r bytes) bool = s.session != nil && ses(s) == aSes(me, them, sec, k, r) with {LocalRegistrationId: ses(s).LocalRegistrationId, RemoteRegistrationId: ses(s).RemoteRegistrationId, AliceBaseKey: ses(s).AliceBaseKey, PendingPreKey: ses(s).PendingPreKey}
def startB(s session.State, me identity.Key, them identity.Key, sec bytes, k bytes, sk bytes) bool = s.session != nil && ses(s) == bSes(me, them, sec, k, sk) with {LocalRegistrationId: ses(s).LocalRegistrationId, RemoteRegistrationId: ses(s).RemoteRegistrationId, AliceBaseKey: ses(s).AliceBaseKey, PendingPreKey: ses(s).PendingPreKey}
lemma tailKey: forall x bytes, k bytes :: (x == "\x05" ++ k && len(k) == 32) ==> x[1:33] == k && "\x05" ++ x[1:33] == x
lemma pubOfLen: forall k bytes :: len(pubOf(k)) == 32
lemma startAhead reveal ahead: forall a session.State, b session.State, ia identity.Key, ib identity.Key, sec bytes, k bytes, r bytes :: (len(k) == 32 && len(r) == 32 && clampF(k) == k && clampF(r) == r && startA(a, ia, ib, sec, pubOf(k), r) && startB(b, ib, ia, sec, pubOf(k), k) && pubOfLen(r) && pubOfLen(k) && tailKey(snd(a).SenderRatchetKey, pubOf(r)) && tailKey(snd(b).SenderRatchetKey, pubOf(k))) ==> ahead(a, b)
lemma startFeeds reveal feeds: forall a session.State, b session.State, ia identity.Key, ib identity.Key, sec bytes, k bytes, r bytes :: (len(k) == 32 && len(r) == 32 && startA(a, ia, ib, sec, pubOf(k), r) && startB(b, ib, ia, sec, pubOf(k), k) && pubOfLen(r) && pubOfLen(k) && tailKey(snd(a).SenderRatchetKey, pubOf(r)) && tailKey(snd(b).SenderRatchetKey, pubOf(k))) ==> feeds(b, a)
lemma startEnds reveal ends: forall a session.State, b session.State, ia identity.Key, ib identity.Key, sec bytes, k bytes, r bytes :: (ia.publicKey != nil && ib.publicKey != nil && inv(ia) && inv(ib) && startA(a, ia, ib, sec, pubOf(k), r) && startB(b, ib, ia, sec, pubOf(k), k)) ==> ends(a, b)
lemma stepAhead reveal ahead: forall a session.State, b session.State, r bytes :: (a.session != nil && b.session != nil && len(r) == 32 && clampF(r) == r && ahead(a, b) && rcv(a, mkPub(pubOf(r))) < 0 && pubOfLen(r) && pubOfLen(snd(a).SenderRatchetKeyPrivate) && tailKey(snd(a).SenderRatchetKey, pubOf(snd(a).SenderRatchetKeyPrivate))) ==> ahead(stepSt(b, val(sndPub(a)).key, r), a)
lemma chainThere: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, j int :: (0 <= j && j < len(l) && chainIs(l[j], key)) ==> firstChain(l, key) >= 0
lemma pushHas: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, c opt<v1.SessionStructure_Chain> :: (c != nil && val(c).SenderRatchetKey == key && chainThere(l ++ unit(c), key, len(l))) ==> firstChain(l ++ unit(c), key) >= 0
lemma dropHas: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, c opt<v1.SessionStructure_Chain> :: (len(l) >= 1 && c != nil && val(c).SenderRatchetKey == key && chainThere((l ++ unit(c))[1:len(l) + 1], key, len(l) - 1)) ==> firstChain((l ++ unit(c))[1:len(l) + 1], key) >= 0
lemma stepHas: forall s session.State, k curve.PublicKey, r bytes :: (s.session != nil && k != nil && rcv(s, k) < 0 && pushHas(ses(s).ReceiverChains, encPub(k), newChain(s, val(k).key)) && dropHas(ses(s).ReceiverChains, encPub(k), newChain(s, val(k).key))) ==> rcv(stepSt(s, val(k).key, r), k) >= 0
lemma stepCK: forall s session.State, k curve.PublicKey, r bytes :: (s.session != nil && k != nil && rcv(s, k) < 0 && stepHas(s, k, r) && stepKey(s, k, r)) ==> chainCK(stepSt(s, val(k).key, r), k) == chainCK(s, k)
lemma stepFeeds reveal ahead reveal feeds: forall a session.State, b session.State, r bytes :: (a.session != nil && b.session != nil && len(r) == 32 && ahead(a, b) && pubOfLen(r) && pubOfLen(snd(a).SenderRatchetKeyPrivate) && tailKey(snd(a).SenderRatchetKey, pubOf(snd(a).SenderRatchetKeyPrivate)) && stepCK(b, sndPub(a), r)) ==> feeds(a, stepSt(b, val(sndPub(a)).key, r))
// what sending keeps
lemma sendAhead reveal ahead: forall a session.State, b session.State :: (a.session != nil && b.session != nil && ahead(a, b) && sndCK(a).index < last()) ==> ahead(nextSnd(a), b)
lemma sendAhead2 reveal ahead: forall a session.State, b session.State :: (a.session != nil && b.session != nil && ahead(b, a)) ==> ahead(b, nextSnd(a))
lemma sendFeeds reveal feeds: forall a session.State, b session.State :: (a.session != nil && b.session != nil && feeds(a, b) && sndCK(a).index < last()) ==> feeds(nextSnd(a), b)
lemma sendFeeds2 reveal feeds: forall a session.State, b session.State :: (a.session != nil && b.session != nil && feeds(b, a)) ==> feeds(b, nextSnd(a))
lemma sendEnds reveal ends: forall a session.State, b session.State :: (a.session != nil && b.session != nil && ends(a, b)) ==> ends(nextSnd(a), b)
// what a ratchet step and a decryption keep
lemma stepEnds reveal ends: forall a session.State, b session.State, k bytes, r bytes :: (a.session != nil && b.session != nil && ends(a, b)) ==> ends(a, stepSt(b, k, r))
lemma useEnds reveal ends: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && ends(a, b)) ==> ends(a, after(b, k, n))
lemma useAhead reveal ahead: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && ahead(b, a)) ==> ahead(after(b, k, n), a)
lemma useFeeds reveal feeds: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && feeds(b, a)) ==> feeds(after(b, k, n), a)
lemma useKeySame reveal useKey: forall c v1.SessionStructure_Chain, n int :: useKey(c, n).SenderRatchetKey == c.SenderRatchetKey
lemma otherAbsent: forall l list<opt<v1.SessionStructure_Chain>>, key bytes, key2 bytes, c opt<v1.SessionStructure_Chain> :: (firstChain(l, key) >= 0 && l[firstChain(l, key)] != nil && firstChain(l, key2) < 0 && c != nil && val(c).SenderRatchetKey == val(l[firstChain(l, key)]).SenderRatchetKey) ==> firstChain(upd(l, firstChain(l, key), c), key2) < 0
lemma afterAbsent: forall s session.State, k curve.PublicKey, n int, k2 curve.PublicKey :: (s.session != nil && k != nil && k2 != nil && rcv(s, k) >= 0 && ses(s).ReceiverChains[rcv(s, k)] != nil && rcv(s, k2) < 0 && useKeySame(rcvChain(s, k), n) && otherAbsent(ses(s).ReceiverChains, encPub(k), encPub(k2), some(useKey(rcvChain(s, k), n)))) ==> rcv(after(s, k, n), k2) < 0
lemma otherAhead reveal ahead: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && k != nil && ahead(a, b) && rcv(b, k) >= 0 && ses(b).ReceiverChains[rcv(b, k)] != nil && afterAbsent(b, k, n, sndPub(a))) ==> ahead(a, after(b, k, n))
lemma otherFeeds reveal feeds: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && k != nil && feeds(a, b) && encPub(k) != encPub(sndPub(a)) && rcv(b, k) >= 0 && ses(b).ReceiverChains[rcv(b, k)] != nil && afterAbsent(b, k, n, sndPub(a)) && afterOther(b, k, n, sndPub(a))) ==> feeds(a, after(b, k, n))
lemma useKeyCK reveal useKey: forall c v1.SessionStructure_Chain, n int :: (n >= ckOf(c.ChainKey).index && n < last()) ==> ckOf(useKey(c, n).ChainKey).index == n + 1 && ckOf(useKey(c, n).ChainKey).key == ckAt(ckOf(c.ChainKey).key, n + 1 - ckOf(c.ChainKey).index)
lemma useKeyOld reveal useKey: forall c v1.SessionStructure_Chain, n int :: n < ckOf(c.ChainKey).index ==> useKey(c, n).ChainKey == c.ChainKey
lemma ownFeeds reveal feeds: forall a session.State, b session.State, n int :: (a.session != nil && b.session != nil && feeds(a, b) && rcv(b, sndPub(a)) >= 0 && 0 <= n && n < sndCK(a).index && sndCK(a).index <= last() && afterChain(b, sndPub(a), n) && useKeyCK(rcvChain(b, sndPub(a)), n) && useKeyOld(rcvChain(b, sndPub(a)), n)) ==> feeds(a, after(b, sndPub(a), n))
// two ends in step: each can decrypt what the other encrypts, and one of them has the newest ratchet key
opaque paired(a session.State, b session.State) bool = ends(a, b) && (ahead(a, b) && feeds(b, a) || ahead(b, a) && feeds(a, b))
lemma pairedFeeds reveal paired: forall a session.State, b session.State :: (a.session != nil && b.session != nil && paired(a, b) && endsVer(a, b) && aheadFeeds(a, b) && aheadFeeds(b, a)) ==> feeds(a, b) && feeds(b, a) && ends(a, b) && ends(b, a)
lemma pairedSwap reveal paired: forall a session.State, b session.State :: (paired(a, b) && endsVer(a, b)) ==> paired(b, a)
// the states made by the initiator and the responder are in step
lemma [C04] pairedStart reveal paired: forall a session.State, b session.State, ia identity.Key, ib identity.Key, sec bytes, k bytes, r bytes :: (len(k) == 32 && len(r) == 32 && clampF(k) == k && clampF(r) == r && ia.publicKey != nil && ib.publicKey != nil && inv(ia) && inv(ib) && startA(a, ia, ib, sec, pubOf(k), r) && startB(b, ib, ia, sec, pubOf(k), k) && startAhead(a, b, ia, ib, sec, k, r) && startFeeds(a, b, ia, ib, sec, k, r) && startEnds(a, b, ia, ib, sec, k, r)) ==> paired(a, b)
// they stay so when one encrypts,
lemma [C04] pairedSend reveal paired: forall a session.State, b session.State :: (a.session != nil && b.session != nil && paired(a, b) && sndCK(a).index < last() && sendAhead(a, b) && sendAhead2(a, b) && sendFeeds(a, b) && sendFeeds2(a, b) && sendEnds(a, b)) ==> paired(nextSnd(a), b)
// when one takes a ratchet step on the other's newest ratchet key,
lemma [C04] pairedStep reveal paired: forall a session.State, b session.State, r bytes :: (a.session != nil && b.session != nil && len(r) == 32 && clampF(r) == r && ahead(a, b) && paired(a, b) && rcv(a, mkPub(pubOf(r))) < 0 && stepAhead(a, b, r) && stepFeeds(a, b, r) && stepEnds(a, b, val(sndPub(a)).key, r)) ==> paired(a, stepSt(b, val(sndPub(a)).key, r))
// and when one decrypts a message of a chain it has
lemma aheadNot reveal ahead: forall a session.State, b session.State :: ahead(a, b) ==> rcv(b, sndPub(a)) < 0
lemma [C04] pairedUse reveal paired: forall a session.State, b session.State, k curve.PublicKey, n int :: (a.session != nil && b.session != nil && paired(a, b) && k != nil && rcv(b, k) >= 0 && ses(b).ReceiverChains[rcv(b, k)] != nil && 0 <= n && n < last() && (k == sndPub(a) && n < sndCK(a).index && sndCK(a).index <= last() || encPub(k) != encPub(sndPub(a))) && aheadNot(a, b) && useEnds(a, b, k, n) && useAhead(a, b, k, n) && useFeeds(a, b, k, n) && otherAhead(a, b, k, n) && otherFeeds(a, b, k, n) && ownFeeds(a, b, n)) ==> paired(a, after(b, k, n))
// so whatever either encrypts, the other decrypts to the same bytes
lemma [C04] pairedDecrypts: forall a session.State, b session.State, p bytes, pt bytes, b2 session.State :: (a.session != nil && b.session != nil && paired(a, b) && pubOk(snd(a).SenderRatchetKey) && authentic(b, encMsg(a, p), pt, b2) && pairedFeeds(a, b) && endsVer(a, b) && decryptsSame(a, b, p, pt, b2)) ==> pt == p
lemma [C04] pairedDelivers: forall a session.State, b session.State, p bytes :: (a.session != nil && b.session != nil && paired(a, b) && pubOk(snd(a).SenderRatchetKey) && rcv(b, sndPub(a)) >= 0 && !dFar(b, encMsg(a, p)) && pairedFeeds(a, b) && deliversSame(a, b, p)) ==> deliverable(b, encMsg(a, p))
// the same with a ratchet key which the other has not seen, when the agreements do not give the all-zero output
def dhsOk(s session.State, k bytes, r bytes) bool = x25519(clampF(snd(s).SenderRatchetKeyPrivate), k) != rep(0, 32) && x25519(r, k) != rep(0, 32)
lemma aheadStep reveal ahead: forall a session.State, b session.State, r bytes :: (a.session != nil && b.session != nil && ahead(a, b) && len(ses(b).RootKey) == 32 && sckOk(b) && len(snd(b).SenderRatchetKeyPrivate) == 32 && dhsOk(b, val(sndPub(a)).key, r)) ==> stepOk(b, sndPub(a), r) && rcv(b, sndPub(a)) < 0 && sndOk(b)
lemma [C04] deliversStep reveal stepDeliverable: forall a session.State, b session.State, p bytes, r bytes :: (a.session != nil && b.session != nil && ahead(a, b) && ends(a, b) && pubOk(snd(a).SenderRatchetKey) && len(ses(b).RootKey) == 32 && sckOk(b) && len(snd(b).SenderRatchetKeyPrivate) == 32 && dhsOk(b, val(sndPub(a)).key, r) && !dFar(b, encMsg(a, p)) && aheadStep(a, b, r) && aheadFeeds(a, b) && endsVer(a, b) && encIs(a, b, p) && stepHas(b, sndPub(a), r) && sameBytes(a, b, p, r)) ==> stepDeliverable(b, encMsg(a, p), r)
// a message decrypted from the other end keeps them in step
lemma stNew reveal stAt: forall s session.State, k curve.PublicKey, r bytes :: rcv(s, k) < 0 ==> stAt(s, k, r) == stepSt(s, val(k).key, r)
lemma [C04] pairedRecv: forall a session.State, b session.State, m message.Signal, b2 session.State :: (a.session != nil && b.session != nil && b2.session != nil && inv(m) && paired(a, b) && tidy(b) && advances(b, m, b2) && 0 <= m.counter && m.counter < last() && m.senderRatchetKey == sndPub(a) && m.counter < sndCK(a).index && sndCK(a).index <= last() && (rcv(b, sndPub(a)) < 0 ==> ahead(a, b) && len(newPriv(b2)) == 32 && clampF(newPriv(b2)) == newPriv(b2) && rcv(a, mkPub(pubOf(newPriv(b2)))) < 0) && advancesIs(b, m, b2) && stSame(b, m.senderRatchetKey, newPriv(b2)) && stNew(b, m.senderRatchetKey, newPriv(b2)) && tidyStep(b, m.senderRatchetKey, newPriv(b2)) && stAtTidy(b, m.senderRatchetKey, newPriv(b2)) && atChain(stp(b, m, b2), m.senderRatchetKey) && tidyThere(ses(stp(b, m, b2)).ReceiverChains[rcv(stp(b, m, b2), m.senderRatchetKey)]) && pairedStep(a, b, newPriv(b2)) && pairedUse(a, stp(b, m, b2), m.senderRatchetKey, m.counter)) ==> paired(a, b2)
// the states which a bundle and the first message made from it give
lemma aliceStart reveal aliceState: forall s session.Session, b prekey.Bundle, e bytes, r bytes :: b.SignedPreKeyPublic != nil ==> startA(aliceState(s, b, e, r), s.IdentityKeyStore.self.identityKey, b.IdentityKey, aSecret(skOf(s.IdentityKeyStore.self.privateKey), e, val(b.SignedPreKeyPublic).key, val(b.IdentityKey.publicKey).key, optKey(b.PreKeyPublic)), val(b.SignedPreKeyPublic).key, r)
lemma bobStart reveal bobState: forall s session.Session, m message.PreKey :: startB(bobState(s, m), s.IdentityKeyStore.self.identityKey, m.identityKey, bSecret(clampF(spkRec(s, m).PrivateKey), skOf(s.IdentityKeyStore.self.privateKey), ite(m.preKeyID == nil, nil, some(clampF(opkRec(s, m).PrivateKey))), val(m.identityKey.publicKey).key, val(m.baseKey).key), spkRec(s, m).PublicKey[1:33], clampF(spkRec(s, m).PrivateKey))
// the bundle has the public keys of Bob's stores, and the message the public keys of Alice
def keyOf(k identity.KeyPair) bytes = val(k.identityKey.publicKey).key
def bundleOf(b prekey.Bundle, sb session.Session, m message.PreKey) bool = b.IdentityKey == sb.IdentityKeyStore.self.identityKey && val(b.SignedPreKeyPublic).key == spkRec(sb, m).PublicKey[1:33] && b.SignedPreKeyPublic != nil && (b.PreKeyPublic == nil <==> m.preKeyID == nil) && (m.preKeyID != nil ==> val(b.PreKeyPublic).key == opkRec(sb, m).PublicKey[1:33])
def bobKeys(sb session.Session, m message.PreKey) bool = keyOf(sb.IdentityKeyStore.self) == pubOf(skOf(sb.IdentityKeyStore.self.privateKey)) && spkRec(sb, m).PublicKey[1:33] == pubOf(clampF(spkRec(sb, m).PrivateKey)) && len(clampF(spkRec(sb, m).PrivateKey)) == 32 && (m.preKeyID != nil ==> opkRec(sb, m).PublicKey[1:33] == pubOf(clampF(opkRec(sb, m).PrivateKey)))
lemma clampTwice: forall k bytes :: len(k) == 32 ==> clampF(clampF(k)) == clampF(k)
lemma secretsSame: forall sa session.Session, sb session.Session, b prekey.Bundle, m message.PreKey, e bytes :: (bundleOf(b, sb, m) && bobKeys(sb, m) && keyOf(sa.IdentityKeyStore.self) == pubOf(skOf(sa.IdentityKeyStore.self.privateKey)) && m.identityKey == sa.IdentityKeyStore.self.identityKey && m.baseKey != nil && val(m.baseKey).key == pubOf(e) && sameSecret(skOf(sa.IdentityKeyStore.self.privateKey), e, clampF(spkRec(sb, m).PrivateKey), skOf(sb.IdentityKeyStore.self.privateKey), ite(m.preKeyID == nil, nil, some(clampF(opkRec(sb, m).PrivateKey))))) ==> aSecret(skOf(sa.IdentityKeyStore.self.privateKey), e, val(b.SignedPreKeyPublic).key, val(b.IdentityKey.publicKey).key, optKey(b.PreKeyPublic)) == bSecret(clampF(spkRec(sb, m).PrivateKey), skOf(sb.IdentityKeyStore.self.privateKey), ite(m.preKeyID == nil, nil, some(clampF(opkRec(sb, m).PrivateKey))), val(m.identityKey.publicKey).key, val(m.baseKey).key)
lemma [C04] firstMessage: forall sa session.Session, sb session.Session, b prekey.Bundle, m message.PreKey, e bytes, r bytes :: (bundleOf(b, sb, m) && bobKeys(sb, m) && keyOf(sa.IdentityKeyStore.self) == pubOf(skOf(sa.IdentityKeyStore.self.privateKey)) && m.identityKey == sa.IdentityKeyStore.self.identityKey && m.baseKey != nil && val(m.baseKey).key == pubOf(e) && len(r) == 32 && clampF(r) == r && len(spkRec(sb, m).PrivateKey) == 32 && inv(m.identityKey) && inv(b.IdentityKey) && m.identityKey.publicKey != nil && b.IdentityKey.publicKey != nil && secretsSame(sa, sb, b, m, e) && aliceStart(sa, b, e, r) && bobStart(sb, m) && clampTwice(spkRec(sb, m).PrivateKey) && pairedStart(aliceState(sa, b, e, r), bobState(sb, m), m.identityKey, b.IdentityKey, aSecret(skOf(sa.IdentityKeyStore.self.privateKey), e, val(b.SignedPreKeyPublic).key, val(b.IdentityKey.publicKey).key, optKey(b.PreKeyPublic)), clampF(spkRec(sb, m).PrivateKey), r)) ==> paired(aliceState(sa, b, e, r), bobState(sb, m))

// the first message is delivered to the session which it asks for
lemma firstKeys reveal aliceState reveal bobState: forall sa session.Session, sb session.Session, b prekey.Bundle, m message.PreKey, e bytes, r bytes :: (bundleOf(b, sb, m) && bobKeys(sb, m) && len(spkRec(sb, m).PrivateKey) == 32) ==> pubOk(snd(aliceState(sa, b, e, r)).SenderRatchetKey) && sndPub(aliceState(sa, b, e, r)) == mkPub(pubOf(r)) && len(ses(bobState(sb, m)).RootKey) == 32 && sckOk(bobState(sb, m)) && snd(bobState(sb, m)).SenderRatchetKeyPrivate == clampF(spkRec(sb, m).PrivateKey) && sndCK(aliceState(sa, b, e, r)).index == 0 && len(ses(bobState(sb, m)).ReceiverChains) == 0
lemma pairedEnds reveal paired: forall a session.State, b session.State :: paired(a, b) ==> ends(a, b)
lemma notFar: forall s session.State, m message.Signal :: (s.session != nil && m.counter == 0 && dCK(s, m).index >= 0) ==> !dFar(s, m)
lemma [C04] firstDelivers: forall sa session.Session, sb session.Session, b prekey.Bundle, m message.PreKey, e bytes, r bytes, p bytes, r2 bytes :: (bundleOf(b, sb, m) && bobKeys(sb, m) && len(spkRec(sb, m).PrivateKey) == 32 && len(r) == 32 && aliceState(sa, b, e, r).session != nil && bobState(sb, m).session != nil && ahead(aliceState(sa, b, e, r), bobState(sb, m)) && paired(aliceState(sa, b, e, r), bobState(sb, m)) && dhsOk(bobState(sb, m), pubOf(r), r2) && firstKeys(sa, sb, b, m, e, r) && pairedEnds(aliceState(sa, b, e, r), bobState(sb, m)) && clampTwice(spkRec(sb, m).PrivateKey) && aheadStep(aliceState(sa, b, e, r), bobState(sb, m), r2) && encIs(aliceState(sa, b, e, r), bobState(sb, m), p) && aheadFeeds(aliceState(sa, b, e, r), bobState(sb, m)) && notFar(bobState(sb, m), encMsg(aliceState(sa, b, e, r), p)) && deliversStep(aliceState(sa, b, e, r), bobState(sb, m), p, r2)) ==> stepDeliverable(bobState(sb, m), encMsg(aliceState(sa, b, e, r), p), r2)
// ---- C12: the same for group chains; the saved keys are in the order of their iterations
lemma gPushLen induct n: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int :: {gPushTo(l, k, i, n)} (len(l) <= 2000 && 0 <= n) ==> len(gPushTo(l, k, i, n)) == ite(len(l) + n > 2000, 2000, len(l) + n)
lemma gPushElt induct n: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int, q int :: {gPushTo(l, k, i, n)[q]} (len(l) <= 2000 && 0 <= q && 0 <= n && q < len(gPushTo(l, k, i, n)) && q >= len(gPushTo(l, k, i, n)) - n) ==> gPushTo(l, k, i, n)[q] == some(gmkPb(gmkOf(ckAt(k, n - len(gPushTo(l, k, i, n)) + q), i + n - len(gPushTo(l, k, i, n)) + q)))
lemma gPushOld induct n: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int, q int :: {gPushTo(l, k, i, n)[q]} (len(l) <= 2000 && 0 <= q && 0 <= n && q < len(gPushTo(l, k, i, n)) - n) ==> gPushTo(l, k, i, n)[q] == l[q + len(l) + n - len(gPushTo(l, k, i, n))]
opaque gInc(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, b int) bool = (forall q int :: {l[q]} (0 <= q && q < len(l)) ==> l[q] != nil && gmkIt(l[q]) < b) && (forall q int, r int :: {l[q], l[r]} (0 <= q && q < r && r < len(l)) ==> gmkIt(l[q]) < gmkIt(l[r]))
lemma gIncPush reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int :: (len(l) <= 2000 && gInc(l, i) && n >= 0) ==> gInc(gPushTo(l, k, i, n), i + n)
lemma gIncMore reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, a int, b int :: (gInc(l, a) && a <= b) ==> gInc(l, b)
lemma gIncWithout reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, b int, i int :: (gInc(l, b) && 0 <= i && i < len(l)) ==> gInc(gmkWithout(l, i), b)
opaque gTidy(s session.GroupState) bool = gs(s).SenderChainKey != nil && len(gs(s).SenderMessageKeys) <= 2000 && gInc(gs(s).SenderMessageKeys, gck(s).iteration)
lemma [C12] gTidyNew reveal gTidy reveal gInc: forall v int, chain int, it int, seed bytes, pub bytes, priv bytes :: gTidy(newGs(v, chain, it, seed, pub, priv))
lemma [C12] gTidyKept reveal gTidy reveal gUse: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState :: (s.state != nil && s2.state != nil && gTidy(s) && 0 <= it && it < last() && gUse(s, it, mk, s2) && gIncPush(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)) && gIncMore(gPushTo(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)), it, it + 1) && gIncWithout(gs(s).SenderMessageKeys, gck(s).iteration, gSaved(s, it))) ==> gTidy(s2)
// looking for a key where it is
lemma gFind reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, b int, it int, p int :: (gInc(l, b) && 0 <= p && p < len(l) && gmkIt(l[p]) == it) ==> firstGMK(l, it) == p
lemma gFindNone: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, it int :: ((forall q int :: {l[q]} (0 <= q && q < len(l)) ==> gmkIt(l[q]) != it)) ==> firstGMK(l, it) < 0
opaque gNo(l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, it int) bool = forall q int :: {l[q]} (0 <= q && q < len(l)) ==> gmkIt(l[q]) != it
lemma gNoIs reveal gNo: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, it int :: gNo(l, it) <==> firstGMK(l, it) < 0
lemma gNoOver reveal gNo reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, b int, it int :: (gInc(l, b) && it >= b) ==> gNo(l, it)
lemma gNoPush reveal gNo: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, k bytes, i int, n int, it int :: (len(l) <= 2000 && n >= 0 && it < i && gNo(l, it)) ==> gNo(gPushTo(l, k, i, n), it)
lemma gNoWithout reveal gNo: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, i int, it int :: (0 <= i && i < len(l) && gNo(l, it)) ==> gNo(gmkWithout(l, i), it)
lemma gNoTaken reveal gNo reveal gInc: forall l list<opt<v1.SenderKeyStateStructure_SenderMessageKey>>, b int, i int :: (gInc(l, b) && 0 <= i && i < len(l)) ==> gNo(gmkWithout(l, i), gmkIt(l[i]))
def gSkipped(s session.GroupState, it int) list<opt<v1.SenderKeyStateStructure_SenderMessageKey>> = gPushTo(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it))
def gTaken(s session.GroupState, it int) list<opt<v1.SenderKeyStateStructure_SenderMessageKey>> = gmkWithout(gs(s).SenderMessageKeys, gSaved(s, it))
lemma [C12] gOnce reveal gTidy reveal gUse reveal gGone: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState :: (s.state != nil && s2.state != nil && gTidy(s) && 0 <= it && it < last() && gUse(s, it, mk, s2) && gIncPush(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)) && gNoOver(gSkipped(s, it), it, it) && gNoTaken(gs(s).SenderMessageKeys, gck(s).iteration, gSaved(s, it)) && gNoIs(gSkipped(s, it), it) && gNoIs(gTaken(s, it), it)) ==> gGone(s2, it)
lemma [C12] gStays reveal gTidy reveal gUse reveal gGone: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gTidy(s) && 0 <= it && it < last() && gUse(s, it, mk, s2) && gGone(s, i2) && gNoIs(gs(s).SenderMessageKeys, i2) && gNoPush(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it), i2) && gNoWithout(gs(s).SenderMessageKeys, gSaved(s, it), i2) && gNoIs(gSkipped(s, it), i2) && gNoIs(gTaken(s, it), i2)) ==> gGone(s2, i2)
lemma gLaterA reveal gKey reveal gUse: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gUse(s, it, mk, s2) && 0 <= it && it < last() && it < i2 && gDist(s, i2) >= 0) ==> gKey(s2, i2) == gKey(s, i2)
lemma gLaterB reveal gKey reveal gUse reveal gTidy: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gTidy(s) && gUse(s, it, mk, s2) && 0 <= it && it < last() && i2 < it && gDist(s, i2) >= 0 && it - i2 <= 2000 && gIncPush(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)) && gFind(gSkipped(s, it), it, i2, len(gSkipped(s, it)) - (it - i2))) ==> gKey(s2, i2) == gKey(s, i2)
lemma gLaterC reveal gKey reveal gUse reveal gTidy: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gTidy(s) && gUse(s, it, mk, s2) && 0 <= it && it < last() && gDist(s, it) >= 0 && gDist(s, i2) < 0 && gSaved(s, i2) >= 0 && len(gs(s).SenderMessageKeys) + gDist(s, it) <= 2000 && gIncPush(gs(s).SenderMessageKeys, gck(s).chainKey, gck(s).iteration, gDist(s, it)) && gFind(gSkipped(s, it), it, i2, gSaved(s, i2))) ==> gKey(s2, i2) == gKey(s, i2)
lemma gLaterD reveal gKey reveal gUse reveal gTidy: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gTidy(s) && gUse(s, it, mk, s2) && 0 <= it && it < last() && gDist(s, it) < 0 && gDist(s, i2) < 0 && gSaved(s, i2) >= 0 && i2 != it && gIncWithout(gs(s).SenderMessageKeys, gck(s).iteration, gSaved(s, it)) && gFind(gTaken(s, it), gck(s).iteration, i2, ite(gSaved(s, i2) > gSaved(s, it), gSaved(s, i2) - 1, gSaved(s, i2)))) ==> gKey(s2, i2) == gKey(s, i2)
// a decrypted message leaves the keys of the others: the later ones, the skipped ones up to 2000 back, and the saved ones unless pushed out
def gKeeps(s session.GroupState, it int, i2 int) bool = i2 != it && (i2 > it && gDist(s, i2) >= 0 || gDist(s, i2) >= 0 && it - i2 <= 2000 || gDist(s, i2) < 0 && gSaved(s, i2) >= 0 && (gDist(s, it) < 0 || len(gs(s).SenderMessageKeys) + gDist(s, it) <= 2000))
lemma [C12] gLater: forall s session.GroupState, it int, mk senderkey.MessageKey, s2 session.GroupState, i2 int :: (s.state != nil && s2.state != nil && gTidy(s) && gUse(s, it, mk, s2) && 0 <= it && it < last() && gKeeps(s, it, i2) && gLaterA(s, it, mk, s2, i2) && gLaterB(s, it, mk, s2, i2) && gLaterC(s, it, mk, s2, i2) && gLaterD(s, it, mk, s2, i2)) ==> gKey(s2, i2) == gKey(s, i2)

// ---- C13: what adding the state of a distribution message does to a record
def gChain(s opt<session.GroupState>) int = gs(val(s)).ChainId
opaque noGS(l list<opt<session.GroupState>>, c int, n int) bool = forall j int :: {l[j]} (0 <= j && j < n) ==> gChain(l[j]) != c
lemma noGSNext reveal noGS: forall l list<opt<session.GroupState>>, c int, n int :: {noGS(l, c, n + 1)} (n >= 0 && noGS(l, c, n + 1)) ==> noGS(l, c, n) && gChain(l[n]) != c
lemma noGSElt reveal noGS: forall l list<opt<session.GroupState>>, c int, n int, j int :: {noGS(l, c, n), l[j]} (noGS(l, c, n) && 0 <= j && j < n) ==> gChain(l[j]) != c
lemma noGSPush reveal noGS: forall l list<opt<session.GroupState>>, c int, s opt<session.GroupState> :: {noGS(l ++ unit(s), c, len(l) + 1)} (noGS(l, c, len(l)) && gChain(s) != c) ==> noGS(l ++ unit(s), c, len(l) + 1)
lemma noGSNone reveal noGS: forall l list<opt<session.GroupState>>, c int :: {noGS(l, c, 0)} noGS(l, c, 0)
// none of the chain is left, and none of another chain is added
lemma keepGone reveal noGS induct n: forall l list<opt<session.GroupState>>, c int, n int :: {keepGS(l, c, n)} n <= len(l) ==> noGS(keepGS(l, c, n), c, len(keepGS(l, c, n)))
lemma keepFrom reveal noGS induct n: forall l list<opt<session.GroupState>>, c int, x int, n int :: (n <= len(l) && noGS(l, x, n)) ==> noGS(keepGS(l, c, n), x, len(keepGS(l, c, n)))
// at most one state for each chain
opaque oneEach(l list<opt<session.GroupState>>) bool = forall q int, r int :: {l[q], l[r]} (0 <= q && q < r && r < len(l)) ==> gChain(l[q]) != gChain(l[r])
lemma oneEachNone reveal oneEach reveal noGS: forall l list<opt<session.GroupState>>, n int :: (oneEach(l) && 0 <= n && n < len(l)) ==> noGS(l, gChain(l[n]), n)
lemma oneEachPush reveal oneEach reveal noGS: forall l list<opt<session.GroupState>>, s opt<session.GroupState> :: (oneEach(l) && noGS(l, gChain(s), len(l))) ==> oneEach(l ++ unit(s))
lemma oneEachDrop reveal oneEach: forall l list<opt<session.GroupState>> :: oneEach(l) ==> oneEach(dropGS(l))
lemma noGSDrop reveal noGS: forall l list<opt<session.GroupState>>, c int :: noGS(l, c, len(l)) ==> noGS(dropGS(l), c, len(dropGS(l)))
lemma oneEachEmpty reveal oneEach: forall l list<opt<session.GroupState>> :: len(l) == 0 ==> oneEach(l)
lemma keepOneEach induct n: forall l list<opt<session.GroupState>>, c int, n int :: (0 <= n && n <= len(l) && oneEach(l) && oneEachNone(l, n - 1) && keepFrom(l, c, gChain(l[n - 1]), n - 1) && oneEachPush(keepGS(l, c, n - 1), l[n - 1]) && oneEachEmpty(keepGS(l, c, n))) ==> oneEach(keepGS(l, c, n))
def kept(l list<opt<session.GroupState>>, s session.GroupState) list<opt<session.GroupState>> = dropGS(keepGS(l, gs(s).ChainId, len(l)))
def newest(l list<opt<session.GroupState>>, s session.GroupState) opt<session.GroupState> = ite(knownAs(l, s) >= 0, l[knownAs(l, s)], some(s))
lemma newestChain: forall l list<opt<session.GroupState>>, s session.GroupState :: s.state != nil ==> gChain(newest(l, s)) == gs(s).ChainId
lemma [C13] addOneEach: forall l list<opt<session.GroupState>>, s session.GroupState :: (s.state != nil && oneEach(l) && keepOneEach(l, gs(s).ChainId, len(l)) && oneEachDrop(keepGS(l, gs(s).ChainId, len(l))) && noGSDrop(keepGS(l, gs(s).ChainId, len(l)), gs(s).ChainId) && newestChain(l, s) && oneEachPush(kept(l, s), newest(l, s))) ==> oneEach(addGS(l, s)) && len(addGS(l, s)) >= 1 && addGS(l, s)[len(addGS(l, s)) - 1] == newest(l, s)
// the state of another chain stays as it is, unless it is the oldest of five
rec keepPos(l list<opt<session.GroupState>>, c int, n int) int = 0 | prev + ite(gChain(l[n]) == c, 0, 1)
lemma keepPosLen induct n: forall l list<opt<session.GroupState>>, c int, n int :: {keepGS(l, c, n)} n >= 0 ==> len(keepGS(l, c, n)) == keepPos(l, c, n)
lemma keepPosLt induct n: forall l list<opt<session.GroupState>>, c int, j int, n int :: {keepPos(l, c, j), keepPos(l, c, n)} (0 <= j && j < n && gChain(l[j]) != c) ==> keepPos(l, c, j) < keepPos(l, c, n)
lemma keepPosNon induct n: forall l list<opt<session.GroupState>>, c int, n int :: n >= 0 ==> keepPos(l, c, n) >= 0 && keepPos(l, c, n) <= n
lemma keepPosAt induct n: forall l list<opt<session.GroupState>>, c int, j int, n int :: (0 <= j && j < n && n <= len(l) && gChain(l[j]) != c && keepPosLt(l, c, j, n) && keepPosLt(l, c, j, n - 1) && keepPosNon(l, c, j)) ==> keepGS(l, c, n)[keepPos(l, c, j)] == l[j]
lemma [C13] addOthers: forall l list<opt<session.GroupState>>, s session.GroupState, j int :: (s.state != nil && 0 <= j && j < len(l) && gChain(l[j]) != gs(s).ChainId && (keepPos(l, gs(s).ChainId, j) >= 1 || keepPos(l, gs(s).ChainId, len(l)) < 5) && keepPosLen(l, gs(s).ChainId, len(l)) && keepPosAt(l, gs(s).ChainId, j, len(l)) && keepPosLt(l, gs(s).ChainId, j, len(l)) && keepPosNon(l, gs(s).ChainId, j)) ==> addGS(l, s)[keepPos(l, gs(s).ChainId, j) - ite(keepPos(l, gs(s).ChainId, len(l)) >= 5, 1, 0)] == l[j]
// the position of a known chain is not changed
lemma [C13] addKnown: forall l list<opt<session.GroupState>>, s session.GroupState :: (s.state != nil && knownAs(l, s) >= 0 && oneEach(l) && addOneEach(l, s)) ==> addGS(l, s)[len(addGS(l, s)) - 1] == l[knownAs(l, s)] && gs(val(l[knownAs(l, s)])).ChainId == gs(s).ChainId

// ---- C11, C12, C13: what a group sender encrypts, the receivers of its distribution message decrypt
// a receiver's state: the sender's chain, at the same place or behind
opaque gAgree(s session.GroupState, r session.GroupState) bool = gs(r).ChainId == gs(s).ChainId && gVer(s) == 3 && gVer(r) == 3 && pubOk(gPub(s)) && pubOk(gPub(r)) && gPub(r)[1:33] == gPub(s)[1:33] && 0 <= gck(r).iteration && gck(r).iteration <= gck(s).iteration && gck(s).chainKey == ckAt(gck(r).chainKey, gck(s).iteration - gck(r).iteration)
// it is so when the receiver adds the distribution message,
lemma [C13] gAgreeStart reveal gAgree: forall s session.GroupState, d distribution.ID :: (s.state != nil && gVer(s) == 3 && pubOk(gPub(s)) && gck(s).iteration >= 0) ==> gAgree(s, skdState(skdOf(s, d)))
// when the sender encrypts,
lemma [C12] gAgreeSend reveal gAgree: forall s session.GroupState, r session.GroupState :: (s.state != nil && r.state != nil && gAgree(s, r) && gck(s).iteration < last()) ==> gAgree(gNext(s), r)
// and when the receiver decrypts what was sent
lemma [C12] gAgreeUse reveal gAgree reveal gUse: forall s session.GroupState, r session.GroupState, it int, mk senderkey.MessageKey, r2 session.GroupState :: (s.state != nil && r.state != nil && r2.state != nil && gAgree(s, r) && gUse(r, it, mk, r2) && 0 <= it && it < gck(s).iteration && gck(s).iteration <= last()) ==> gAgree(s, r2)
// the key is the sender's
lemma [C12] gAgreeKey reveal gAgree reveal gKey: forall s session.GroupState, r session.GroupState :: (s.state != nil && r.state != nil && gAgree(s, r)) ==> gKey(r, gck(s).iteration) == some(gMK(s))
def gSent(s session.GroupState, d distribution.ID, p bytes, z bytes) message.SenderKey = skMsg(gVer(s) % 256, d, gs(s).ChainId, gck(s).iteration, cbcEnc(gMK(s).cipherKey, gMK(s).iv, pad(p)), xedSig(clampF(gPriv(s)), gBody(s, d, p), z))
// the message decrypts to the same bytes
opaque gOpensTo(k senderkey.MessageKey, m message.SenderKey, p bytes) bool = gOpens(k, m) && (forall pt bytes :: {gPlain(k, m, pt)} gPlain(k, m, pt) ==> pt == p)
lemma gSentOpens reveal gOpens reveal gPlain reveal gOpensTo: forall s session.GroupState, d distribution.ID, p bytes, z bytes :: s.state != nil ==> gOpensTo(gMK(s), gSent(s, d, p, z), p)
lemma gOpened reveal gOpensTo: forall k senderkey.MessageKey, m message.SenderKey, p bytes, pt bytes :: (gOpensTo(k, m, p) && gPlain(k, m, pt)) ==> pt == p
lemma [C11,C12] gSameBytes: forall s session.GroupState, r session.GroupState, d distribution.ID, p bytes, z bytes, mk senderkey.MessageKey, r2 session.GroupState, pt bytes :: (s.state != nil && r.state != nil && gAgree(s, r) && gUse(r, gck(s).iteration, mk, r2) && gPlain(mk, gSent(s, d, p, z), pt) && gAgreeKey(s, r) && gSentOpens(s, d, p, z) && gOpened(gMK(s), gSent(s, d, p, z), p, pt)) ==> pt == p
// the sender's signing keys belong together, as they do in a new state; its messages verify with the key of the receivers
opaque gSigns(s session.GroupState) bool = len(gPriv(s)) == 32 && pubOk(gPub(s)) && gPub(s)[1:33] == pubOf(clampF(gPriv(s)))
lemma [C11] gSignsNew reveal gSigns: forall s session.GroupState, id bytes, seed bytes, k bytes :: (s.state != nil && len(k) == 32 && gFresh(s, id, seed, clampF(k)) && clampTwice(k) && pubOfLen(clampF(k))) ==> gSigns(s)
lemma [C11] gSignsNext reveal gSigns: forall s session.GroupState :: (s.state != nil && gSigns(s)) ==> gSigns(gNext(s))
lemma gTail: forall a bytes, b bytes :: len(b) == 64 ==> (a ++ b)[0:len(a ++ b) - 64] == a && (a ++ b)[len(a ++ b) - 64:len(a ++ b)] == b
lemma [C11] gSentVerifies reveal gSigns: forall s session.GroupState, d distribution.ID, p bytes, z bytes :: (s.state != nil && gSigns(s) && genuineVerifies(clampF(gPriv(s)), gBody(s, d, p), z) && xedYBack(clampF(gPriv(s)), gBody(s, d, p), z) && xedUnsigned(clampF(gPriv(s)), gBody(s, d, p), z) && gTail(gBody(s, d, p), xedSig(clampF(gPriv(s)), gBody(s, d, p), z))) ==> skSigOk(gSent(s, d, p, z), some(mkPub(gPub(s)[1:33])))
// so a record whose state for the chain agrees with the sender accepts the message
lemma [C11,C12] gDelivers reveal gAuth reveal gAgree reveal gOpensTo: forall s session.GroupState, r session.GroupRecord, d distribution.ID, p bytes, z bytes :: (s.state != nil && inv(r) && firstGS(r.states, gs(s).ChainId) >= 0 && gAgree(s, val(r.states[firstGS(r.states, gs(s).ChainId)])) && gSigns(s) && gSentVerifies(s, d, p, z) && gSentOpens(s, d, p, z)) ==> gAuth(r, gSent(s, d, p, z)) && gOpens(gMK(s), gSent(s, d, p, z))

// ---- C19: what archiving a state does
lemma [C19] archLimit reveal arch: forall l list<bytes>, c opt<session.State> :: len(l) <= 40 ==> len(arch(l, c)) <= 40
// encoding a state and decoding it gives the state, as repeated fields have no nil elements
opaque wellSes(m v1.SessionStructure) bool = (forall j int :: {m.ReceiverChains[j]} (0 <= j && j < len(m.ReceiverChains)) ==> m.ReceiverChains[j] != nil && (forall q int :: {val(m.ReceiverChains[j]).MessageKeys[q]} (0 <= q && q < len(val(m.ReceiverChains[j]).MessageKeys)) ==> val(m.ReceiverChains[j]).MessageKeys[q] != nil)) && (m.SenderChain != nil ==> len(val(m.SenderChain).MessageKeys) == 0)
axiom rtSession: forall m v1.SessionStructure :: {marshal(m), wellSes(m)} wellSes(m) ==> unmarshalOk(v1.SessionStructure, marshal(m)) && unmarshal(v1.SessionStructure, marshal(m)) == m
lemma [C19] archNewest reveal arch: forall l list<bytes>, s session.State :: (s.session != nil && wellSes(ses(s))) ==> len(arch(l, some(s))) > 0 && stOf(arch(l, some(s))[len(arch(l, some(s))) - 1]) == s && unmarshalOk(v1.SessionStructure, arch(l, some(s))[len(arch(l, some(s))) - 1])
lemma [C19] archKeeps reveal arch: forall l list<bytes>, c opt<session.State>, j int :: (0 <= j && j < len(l) && len(l) <= 40 && (j >= 1 || len(l) < 40)) ==> arch(l, c)[ite(c != nil && len(l) == 40, j - 1, j)] == l[j]
lemma [C19] archNone reveal arch: forall l list<bytes> :: arch(l, nil) == l
lemma [C19] withoutKeeps: forall l list<bytes>, i int, j int :: (0 <= i && i < len(l) && 0 <= j && j < len(l) && i != j) ==> len(without(l, i)) == len(l) - 1 && without(l, i)[ite(j < i, j, j - 1)] == l[j]
// after an archived state decrypted a message, the record has as many archived states as before, or one fewer if it had no current one
lemma [C19] promoteLimit reveal arch: forall l list<bytes>, i int, c opt<session.State> :: (0 <= i && i < len(l) && len(l) <= 40) ==> len(arch(without(l, i), c)) == ite(c == nil, len(l) - 1, len(l))
