// ---- fingerprints (protocol/fingerprint)
rec fpAt(id bytes, key bytes, n int) bytes = sha512("\x00\x00" ++ key ++ id ++ key) | sha512(prev ++ key) len 64
template exact fpLoop(c bytes, id bytes, key bytes, i int): c == fpAt(id, key, i - 1)
def fpItOk(n int) bool = 1 < n && n <= 1000000

def chunkVal(b bytes, o int) int = b[o] * 4294967296 + b[o+1] * 16777216 + b[o+2] * 65536 + b[o+3] * 256 + b[o+4]
def chunk(b bytes, o int) string = fmtPad5(chunkVal(b, o) % 100000)
def enc30(b bytes) string = chunk(b, 0) ++ chunk(b, 5) ++ chunk(b, 10) ++ chunk(b, 15) ++ chunk(b, 20) ++ chunk(b, 25)
def display(l string, r string) string = ite(strlt(l, r), l ++ r, r ++ l)
axiom strltTotal: forall a string, b string :: {strlt(a, b)} (strlt(a, b) ==> !strlt(b, a)) && (strlt(a, b) || strlt(b, a) || a == b)

contract fingerprint.fingerprint(iterations, localID, localKey) (fp, err)
ensures [C17] (err == nil) <==> fpItOk(iterations)
ensures [C17] err == nil ==> fp == fpAt(localID, encId(localKey), iterations - 1)

contract fingerprint.encode(bytes) (s, err)
ensures [C17] (err == nil) <==> len(bytes) >= 30
ensures [C17] err == nil ==> s == enc30(bytes)

contract fingerprint.NewDisplayable(local, remote) (d, err)
ensures [C17] (err == nil) <==> (len(local) >= 30 && len(remote) >= 30)
ensures [C17] err == nil ==> d != nil && val(d).local == enc30(local) && val(d).remote == enc30(remote)

contract (*fingerprint.Displayable).String(d) (s)
ensures [C17] s == display(d.local, d.remote)

typeinv fingerprint.Scannable(s): len(s.local) == 32 && len(s.remote) == 32

contract fingerprint.NewScannable(version, local, remote) (s, err)
ensures [C17] (err == nil) <==> (len(local) >= 32 && len(remote) >= 32)
ensures [C17] err == nil ==> s != nil && val(s).version == version && val(s).local == local[0:32] && val(s).remote == remote[0:32]

def combined(s fingerprint.Scannable) v1.CombinedFingerprints = v1.CombinedFingerprints{Version: some(s.version), LocalFingerprint: v1.LogicalFingerprint{Content: s.local}, RemoteFingerprint: v1.LogicalFingerprint{Content: s.remote}}
axiom rtCombined: forall m v1.CombinedFingerprints :: {marshal(m)} unmarshalOk(v1.CombinedFingerprints, marshal(m)) && unmarshal(v1.CombinedFingerprints, marshal(m)) == m

contract (*fingerprint.Scannable).Bytes(s) (b, err)
fresh
ensures [C17] err == nil && b == marshal(combined(s))

def optU(o opt<int>) int = ite(o == nil, 0, val(o))
def logical(o opt<v1.LogicalFingerprint>) bytes = ite(o == nil, [], val(o).Content)
contract (*fingerprint.Scannable).Compare(s, scanned) (same, err)
where m = unmarshal(v1.CombinedFingerprints, scanned)
ensures [C17] (err == nil) <==> (unmarshalOk(v1.CombinedFingerprints, scanned) && optU(m.Version) == s.version)
ensures [C17] same <==> (err == nil && s.local == logical(m.RemoteFingerprint) && s.remote == logical(m.LocalFingerprint))

typeinv fingerprint.Fingerprint(f): f.displayable != nil && f.scannable != nil

contract fingerprint.New(version, iterations, localID, localKey, remoteID, remoteKey) (f, err)
where l = fpAt(localID, encId(localKey), iterations - 1)
where r = fpAt(remoteID, encId(remoteKey), iterations - 1)
ensures [C17] (err == nil) <==> fpItOk(iterations)
ensures [C17] err == nil ==> f != nil && val(val(f).displayable) == fingerprint.Displayable{local: enc30(l), remote: enc30(r)} && val(val(f).scannable) == fingerprint.Scannable{version: version, local: l[0:32], remote: r[0:32]}

contract (*fingerprint.Fingerprint).String(f) (s)
ensures [C17] s == display(val(f.displayable).local, val(f.displayable).remote)

// both parties display the same number, and each accepts the other's code
lemma [C17] displaySymmetric: forall a string, b string :: display(a, b) == display(b, a)
lemma [C17] scanMatches: forall s fingerprint.Scannable, t fingerprint.Scannable :: (unmarshalOk(v1.CombinedFingerprints, marshal(combined(s))) && optU(unmarshal(v1.CombinedFingerprints, marshal(combined(s))).Version) == s.version && logical(unmarshal(v1.CombinedFingerprints, marshal(combined(s))).RemoteFingerprint) == s.remote && logical(unmarshal(v1.CombinedFingerprints, marshal(combined(s))).LocalFingerprint) == s.local)

// ---- distribution ids (protocol/distribution)
axiom uuidText: forall u bytes :: {uuidStr(u)} len(u) == 16 ==> uuidOk(uuidStr(u)) && uuidVal(uuidStr(u)) == u

contract distribution.Parse(id) (d, err)
ensures [C10] (err == nil) <==> uuidOk(id)
ensures [C10] err == nil ==> d.id == uuidVal(id)

contract distribution.ParseBytes(id) (d, err)
ensures [C10] (err == nil) <==> uuidOk(id)
ensures [C10] err == nil ==> d.id == uuidVal(id)

contract (distribution.ID).String(i) (s)
ensures [C10] s == uuidStr(i.id)

lemma [C10] distributionRoundTrip: forall i distribution.ID :: len(i.id) == 16 ==> uuidOk(uuidStr(i.id)) && uuidVal(uuidStr(i.id)) == i.id
