// ---- session records (protocol/session/record.go)
// the number of receiving chains survives serialisation
axiom rtChains: forall m v1.SessionStructure :: {marshal(m)} fits(m) ==> fits(unmarshal(v1.SessionStructure, marshal(m)))
typeinv session.Record(r): len(r.previousSessions) <= 40 && forall j int :: {r.previousSessions[j]} (0 <= j && j < len(r.previousSessions)) ==> fits(unmarshal(v1.SessionStructure, r.previousSessions[j]))
def stOf(b bytes) session.State = session.State{session: some(unmarshal(v1.SessionStructure, b))}
rec prevStates(l list<bytes>, n int) list<opt<session.State>> = [] | prev ++ unit(some(stOf(l[n]))) len ite(n <= 0, 0, n)
lemma prevElt induct n: forall l list<bytes>, n int, j int :: {prevStates(l, n)[j]} (0 <= j && j < n) ==> prevStates(l, n)[j] == some(stOf(l[j]))
rec prevOk(l list<bytes>, n int) bool = true | prev && unmarshalOk(v1.SessionStructure, l[n])
template mkPrev(a list<opt<session.State>>, l list<bytes>, i int): i <= len(a) && a[0:i] == prevStates(l, i)
template allOk(i int, l list<bytes>): prevOk(l, i)
lemma prevOkAll induct n: forall l list<bytes>, n int, j int :: {prevOk(l, n), unmarshalOk(v1.SessionStructure, l[j])} (prevOk(l, n) && 0 <= j && j < n) ==> unmarshalOk(v1.SessionStructure, l[j])

contract (*session.Record).PreviousStates(r) (states, err)
ensures [C19] err == nil <==> prevOk(r.previousSessions, len(r.previousSessions))
ensures [C19] err == nil ==> states == prevStates(r.previousSessions, len(r.previousSessions))

// archived states: the current one goes to the end, at most 40 are kept, the oldest is dropped
opaque arch(l list<bytes>, cur opt<session.State>) list<bytes> = ite(cur == nil, l, ite(len(l) >= 40, l[1:len(l)], l) ++ unit(marshal(ses(val(cur)))))
def without(l list<bytes>, i int) list<bytes> = l[0:i] ++ l[i + 1:len(l)]

contract (*session.Record).ArchiveCurrentState(r)
reveal arch
modifies r
ensures [C19] r == old(r) with {previousSessions: arch(old(r).previousSessions, old(r).currentSession)}

contract (*session.Record).PromoteState(r, state)
inline
reveal arch
modifies r
ensures [C19] r == session.Record{currentSession: some(state), previousSessions: arch(old(r).previousSessions, old(r).currentSession)}

contract (*session.Record).PromoteOldState(r, idx, state)
inline
reveal arch
modifies r
ensures [C19,C02] (idx < 0 || idx >= len(old(r).previousSessions)) ==> r == old(r)
ensures [C19,C02] 0 <= idx && idx < len(old(r).previousSessions) ==> r == session.Record{currentSession: some(state), previousSessions: arch(without(old(r).previousSessions, idx), old(r).currentSession)}

contract (*session.Record).SetSessionState(r, session)
inline
modifies r
ensures [C19] r == old(r) with {currentSession: some(session)}

contract session.NewRecordBytes(bytes) (r, err)
requires fits(unmarshal(v1.SessionStructure, bytes))
ensures [C19,C09] err == nil <==> unmarshalOk(v1.SessionStructure, bytes)
ensures [C19] err == nil ==> r == some(session.Record{currentSession: some(stOf(bytes)), previousSessions: []})

contract (*session.Record).clone(r) (c)
fresh
ensures [C08] c == some(r)

contract (*session.Record).Version(r) (v, err)
ensures [C19] err == perrors.ErrNoCurrentSession <==> r.currentSession == nil
ensures [C19] err == nil <==> r.currentSession != nil
ensures [C19] err == nil ==> v == verOf(val(r.currentSession))

contract (*session.Record).SenderChainKey(r) (k, err)
ensures [C19] err == nil <==> (r.currentSession != nil && sckOk(val(r.currentSession)))
ensures [C19] err == nil ==> k == ckOf(snd(val(r.currentSession)).ChainKey)
ensures [C19] err >= 0 || err == perrors.ErrNoCurrentSession

contract (*session.Record).ReceiverChainKey(r, sender) (k, ok, err)
ensures [C19] err == perrors.ErrNoCurrentSession <==> r.currentSession == nil
ensures [C19] ok ==> r.currentSession != nil && k == ckOf(rcvChain(val(r.currentSession), sender).ChainKey)
ensures [C19] err >= 0 || err == perrors.ErrNoCurrentSession

contract (*session.Record).LocalIdentityKey(r) (k, err)
ensures [C01] err == nil ==> r.currentSession != nil && locOk(val(r.currentSession)) && k == locId(val(r.currentSession))
ensures [C01] err >= 0 || err == perrors.ErrNoCurrentSession

contract (*session.Record).RemoteIdentityKey(r) (k, ok, err)
ensures [C06] err == perrors.ErrNoCurrentSession <==> r.currentSession == nil
ensures [C06] ok ==> r.currentSession != nil && remOk(val(r.currentSession)) && k == remId(val(r.currentSession))
ensures [C06] err >= 0 || err == perrors.ErrNoCurrentSession

// is there already a session which was set up with this base key
def sameBase(s session.State, v int, k bytes) bool = verOf(s) == v && ses(s).AliceBaseKey == k
rec anyBase(l list<bytes>, v int, k bytes, n int) bool = false | prev || sameBase(stOf(l[n]), v, k)
lemma anyBaseHit induct n: forall l list<bytes>, v int, k bytes, n int, j int :: {anyBase(l, v, k, n), unmarshal(v1.SessionStructure, l[j])} (0 <= j && j < n && sameBase(stOf(l[j]), v, k)) ==> anyBase(l, v, k, n)
template noBase(i int, l list<bytes>, v u32, k bytes): !anyBase(l, v, k, i)

contract (*session.Record).HasSessionState(r, version, aliceBaseKey) (ok, err)
ensures [C20,C19] ok <==> ((r.currentSession != nil && sameBase(val(r.currentSession), version, aliceBaseKey)) || (err == nil && anyBase(r.previousSessions, version, aliceBaseKey, len(r.previousSessions))))
ensures [C20,C19] err == nil <==> ((r.currentSession != nil && sameBase(val(r.currentSession), version, aliceBaseKey)) || prevOk(r.previousSessions, len(r.previousSessions)))

// ---- decryption with a record: the current state first, then the archived ones
template tailSame(a list<opt<session.State>>, i int): len(a) == len(init(a)) && (forall j int :: {a[j]} (i <= j && j < len(a)) ==> a[j] == init(a)[j])

template noneDelivers(a list<opt<session.State>>, m message.Signal, i int): forall j int :: {init(a)[j]} (0 <= j && j < i) ==> !deliverable(val(init(a)[j]), m)
// m can be delivered to an archived session, and is no duplicate for any
opaque archDeliverable(o session.Record, m message.Signal) bool = prevOk(o.previousSessions, len(o.previousSessions)) && (o.currentSession == nil || !used(val(o.currentSession), m)) && (forall j int :: {o.previousSessions[j]} (0 <= j && j < len(o.previousSessions)) ==> !used(stOf(o.previousSessions[j]), m)) && (exists i int :: {o.previousSessions[i]} 0 <= i && i < len(o.previousSessions) && deliverable(val(prevStates(o.previousSessions, len(o.previousSessions))[i]), m))
// decrypting m with record o gives pt and record n: with the current state, or an archived one which becomes current
opaque decrypted(o session.Record, m message.Signal, pt bytes, n session.Record) bool = n.currentSession != nil && ((o.currentSession != nil && authentic(val(o.currentSession), m, pt, val(n.currentSession)) && advances(val(o.currentSession), m, val(n.currentSession)) && n.previousSessions == o.previousSessions) || (exists i int :: {o.previousSessions[i]} 0 <= i && i < len(o.previousSessions) && unmarshalOk(v1.SessionStructure, o.previousSessions[i]) && authentic(stOf(o.previousSessions[i]), m, pt, val(n.currentSession)) && advances(stOf(o.previousSessions[i]), m, val(n.currentSession)) && n.previousSessions == arch(without(o.previousSessions, i), o.currentSession)))

contract (*session.Session).decryptMessage(s, random, record, typ, ciphertext) (pt, err)
nilable random
modifies record, rand
reveal decrypted, archDeliverable
where o = old(record)
where r = clampF(rnd(rdOf(random), old(rand), 32))
ensures [C19] err >= 0 || err == perrors.ErrDuplicateMessage
ensures [C19] errIs(err, perrors.ErrDuplicateMessage) ==> err == perrors.ErrDuplicateMessage
ensures [C01,C02,C03,C19] err == nil ==> decrypted(o, ciphertext, pt, record)
ensures [C19] err == nil ==> record.currentSession != nil
ensures [C03,C19] o.currentSession != nil && deliverable(val(o.currentSession), ciphertext) ==> err == nil && authentic(val(o.currentSession), ciphertext, pt, val(record.currentSession)) && advances(val(o.currentSession), ciphertext, val(record.currentSession))
ensures [C03,C04] o.currentSession != nil && stepDeliverable(val(o.currentSession), ciphertext, r) && rndOk(rdOf(random), old(rand), 32) ==> err == nil && authentic(val(o.currentSession), ciphertext, pt, val(record.currentSession)) && advances(val(o.currentSession), ciphertext, val(record.currentSession))
ensures [C19] archDeliverable(o, ciphertext) ==> err == nil
ensures [C21,C19] err == nil ==> ses(val(record.currentSession)).PendingPreKey == nil
