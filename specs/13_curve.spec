// ---- Curve25519 keys, X25519 agreement and XEdDSA signatures (protocol/curve)

// the reader used for randomness: crypto/rand.Reader when none is given
def rdOf(r int) int = ite(r == 0, randReader(), r)

// RFC 7748 clamping of a 32-byte scalar
func clampF(k bytes) bytes len 32
axiom clampDef: forall k bytes :: {clampF(k)} len(k) == 32 ==> clampF(k) == upd(upd(k, 0, 8 * (k[0] / 8)), 31, k[31] % 64 + 64)
lemma clampIdem: forall k bytes :: {clampF(clampF(k))} len(k) == 32 ==> clampF(clampF(k)) == clampF(k)
// scalars and shared secrets depend on the clamped key only
func scOf(k bytes) U.filippo.io.edwards25519.Scalar
func dhOf(k bytes, p bytes) bytes len 32
axiom clampScalar: forall k bytes :: {scClamp(k)} scClamp(k) == scOf(clampF(k))
axiom clampDH: forall k bytes, p bytes :: {x25519(k, p)} x25519(k, p) == dhOf(clampF(k), p)

// public key of a private key, and the shared secret
def pubOf(k bytes) bytes = ptMont(baseMult(scClamp(k)))
axiom dhCommutes: forall a bytes, b bytes :: {x25519(a, pubOf(b))} x25519(a, pubOf(b)) == x25519(b, pubOf(a))

rec flatTo(ms list<bytes>, n int) bytes = [] | prev ++ ms[n]
def flat(ms list<bytes>) bytes = flatTo(ms, len(ms))

typeinv curve/curve25519.PrivateKey(p): len(p.privateKey) == 32 && clampF(ecdhPrivBytes(val(p.ecdhKey))) == p.privateKey && clampF(p.privateKey) == p.privateKey && p.scalarKey != nil && val(p.scalarKey) == scClamp(p.privateKey) && p.publicKey == pubOf(p.privateKey) && p.ecdhKey != nil
template exact flatWrites(d bytes, ms list<bytes>, i int): d == init(d) ++ flatTo(ms, i)

contract curve/curve25519.NewPrivateKey(key) (p, err)
ensures [C15] (err == nil) <==> len(key) == 32
ensures [C15] err == nil ==> p != nil && val(p).privateKey == clampF(key)

contract curve/curve25519.GeneratePrivateKey(random) (p, err)
nilable random
modifies rand
ensures [C15] err == nil ==> p != nil && val(p).privateKey == clampF(rnd(rdOf(random), old(rand), 32))
ensures [C15] rand == old(rand) + 1
ensures [C15] err == nil <==> rndOk(rdOf(random), old(rand), 32)

contract (*curve/curve25519.PrivateKey).Bytes(p) (b)
fresh
ensures [C15] b == p.privateKey

contract (*curve/curve25519.PrivateKey).PublicKeyBytes(p) (b)
fresh
ensures [C15] b == pubOf(p.privateKey)

contract (*curve/curve25519.PrivateKey).Agreement(p, key) (s, err)
fresh
ensures [C15,C04] (err == nil) <==> (len(key) == 32 && x25519(p.privateKey, key) != rep(0, 32))
ensures [C15,C04] err == nil ==> s == x25519(p.privateKey, key)
ensures [C15,C04] err != nil ==> len(s) == 0

// XEdDSA (Signal specification, section 2): signing and verification
def hashPfx() bytes = "\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"
def xedA(k bytes) bytes = ptBytes(baseMult(scClamp(k)))
def xedr(k bytes, m bytes, z bytes) U.filippo.io.edwards25519.Scalar = scUniform(sha512(hashPfx() ++ scBytes(scClamp(k)) ++ m ++ z))
def xedR(k bytes, m bytes, z bytes) bytes = ptBytes(baseMult(xedr(k, m, z)))
def xeds(k bytes, m bytes, z bytes) bytes = scBytes(scMulAdd(scClamp(k), scUniform(sha512(xedR(k, m, z) ++ xedA(k) ++ m)), xedr(k, m, z)))
// the sign bit of A is carried in the top bit of s
def xedSig(k bytes, m bytes, z bytes) bytes = xedR(k, m, z) ++ upd(xeds(k, m, z), 31, xeds(k, m, z)[31] % 128 + 128 * (xedA(k)[31] / 128))
def utoyF(u bytes) bytes = feOut(feMul(feSub(feBytes(u), feOne()), feInv(feAdd(feBytes(u), feOne()))))
def uOk(u bytes) bool = len(u) == 32 && feBytes(u) != feNeg(feOne())
def flipSign(y bytes, s int) bytes = upd(y, 31, (y[31] + s) % 256)
def xedY(u bytes, sig bytes) bytes = ite(sig[63] / 128 == 1, upd(utoyF(u), 31, utoyF(u)[31] + 128), utoyF(u))
def xedVerify(u bytes, sig bytes, m bytes) bool = len(sig) == 64 && uOk(u) && edVerify(xedY(u, sig), m, upd(sig, 63, sig[63] % 128))
axiom feOutCanonical: forall f U.filippo.io.edwards25519.field.Element :: {feOut(f)} feOut(f)[31] < 128

// what the edwards25519 package computes with: scalars are reduced, the u-coordinate of a public key maps back to the
// y-coordinate of its point (RFC 7748, section 4.1; the two exceptional points are not multiples of the base point by a clamped scalar),
// and (R, r + h a) is a signature under a B for R = r B and h the hash of R, a B and the message (RFC 8032, section 5.1.7)
axiom scReduced: forall x U.filippo.io.edwards25519.Scalar :: {scBytes(x)} scBytes(x)[31] < 32
axiom montBack: forall k bytes :: {ptMont(baseMult(scClamp(k)))} len(k) == 32 ==> uOk(ptMont(baseMult(scClamp(k)))) && utoyF(ptMont(baseMult(scClamp(k)))) == upd(ptBytes(baseMult(scClamp(k))), 31, ptBytes(baseMult(scClamp(k)))[31] % 128)
axiom edComplete: forall a U.filippo.io.edwards25519.Scalar, r U.filippo.io.edwards25519.Scalar, m bytes :: {scMulAdd(a, scUniform(sha512(ptBytes(baseMult(r)) ++ ptBytes(baseMult(a)) ++ m)), r)} edVerify(ptBytes(baseMult(a)), m, ptBytes(baseMult(r)) ++ scBytes(scMulAdd(a, scUniform(sha512(ptBytes(baseMult(r)) ++ ptBytes(baseMult(a)) ++ m)), r)))
lemma xedYBack: forall k bytes, m bytes, z bytes :: len(k) == 32 ==> xedY(pubOf(k), xedSig(k, m, z)) == xedA(k)
lemma xedUnsigned: forall k bytes, m bytes, z bytes :: len(k) == 32 ==> upd(xedSig(k, m, z), 63, xedSig(k, m, z)[63] % 128) == xedR(k, m, z) ++ xeds(k, m, z)
// a genuine signature verifies
lemma [C16,C07,C11] genuineVerifies: forall k bytes, m bytes, z bytes :: (len(k) == 32 && xedYBack(k, m, z) && xedUnsigned(k, m, z)) ==> xedVerify(pubOf(k), xedSig(k, m, z), m)

contract (*curve/curve25519.PrivateKey).Sign(p, random, messages) (sig, err)
nilable random
modifies rand
fresh
ensures [C16] err == nil ==> sig == xedSig(p.privateKey, flat(messages), rnd(rdOf(random), old(rand), 64))
ensures [C16] rand == old(rand) + 1
ensures [C16] err == nil <==> rndOk(rdOf(random), old(rand), 64)
ensures [C16] err != nil ==> len(sig) == 0

contract curve/curve25519.VerifySignature(publicKey, signature, messages) (ok, err)
ensures [C16,C07,C11] ok <==> xedVerify(publicKey, signature, flat(messages))
ensures [C16,C07,C11] err != nil ==> !ok

// ---- the curve package
typeinv curve.DJBPublicKey(k): len(k.key) == 32
typeinv curve.DJBPrivateKey(k): k.key != nil
typeinv curve.KeyPair(p): p.privateKey != nil && p.publicKey != nil

// raw bytes of a private key held as curve.PrivateKey
def skOf(k curve.PrivateKey) bytes = val(val(k).key).privateKey
// encoding of a public key: type byte and u-coordinate
def encPub(k curve.PublicKey) bytes = "\x05" ++ val(k).key
def mkPub(b bytes) curve.DJBPublicKey = curve.DJBPublicKey{key: b}
def pubOfSk(k curve.PrivateKey) curve.DJBPublicKey = mkPub(pubOf(skOf(k)))
// the key the agreement of a and public key p yields, when it is not the all-zero output
def dh(a curve.PrivateKey, p curve.PublicKey) bytes = x25519(skOf(a), val(p).key)
def dhOk(a curve.PrivateKey, p curve.PublicKey) bool = dh(a, p) != rep(0, 32)
def pubOk(b bytes) bool = len(b) >= 33 && b[0] == 5

contract curve.GeneratePrivateKey(random) (k, err)
nilable random
modifies rand
ensures [C15] err == nil ==> k != nil && skOf(k) == clampF(rnd(rdOf(random), old(rand), 32))
ensures [C15] rand == old(rand) + 1
ensures [C15] err == nil <==> rndOk(rdOf(random), old(rand), 32)

contract curve.NewPrivateKey(key) (k, err)
ensures [C15] (err == nil) <==> len(key) == 32
ensures [C15] err == nil ==> k != nil && skOf(k) == clampF(key)

contract curve.NewPublicKey(key) (k, err)
ensures [C15] (err == nil) <==> pubOk(key)
ensures [C15] err == nil ==> k != nil && val(k).key == key[1:33]

contract (*curve.DJBPrivateKey).Bytes(d) (b)
fresh
ensures [C15] b == val(d.key).privateKey

contract (*curve.DJBPrivateKey).PublicKey(d) (k)
ensures [C15] k != nil && val(k).key == pubOf(val(d.key).privateKey)

contract (*curve.DJBPrivateKey).Agreement(d, key) (s, err)
fresh
ensures [C15,C04] (err == nil) <==> x25519(val(d.key).privateKey, val(key).key) != rep(0, 32)
ensures [C15,C04] err == nil ==> s == x25519(val(d.key).privateKey, val(key).key)
ensures [C15,C04] err != nil ==> len(s) == 0

contract (*curve.DJBPrivateKey).Sign(d, random, messages) (sig, err)
nilable random
modifies rand
fresh
ensures [C16] err == nil ==> sig == xedSig(val(d.key).privateKey, flat(messages), rnd(rdOf(random), old(rand), 64))
ensures [C16] rand == old(rand) + 1
ensures [C16] err == nil <==> rndOk(rdOf(random), old(rand), 64)

contract (*curve.DJBPublicKey).Bytes(d) (b)
fresh
ensures [C15] b == "\x05" ++ d.key

contract (*curve.DJBPublicKey).KeyBytes(d) (b)
fresh
ensures [C15] b == d.key

contract (*curve.DJBPublicKey).Equal(d, key) (r)
ensures [C15,C22] r <==> d.key == val(key).key

contract (*curve.DJBPublicKey).VerifySignature(d, signature, messages) (ok, err)
ensures [C16,C07,C11] ok <==> xedVerify(d.key, signature, flat(messages))
ensures [C16,C07,C11] err != nil ==> !ok

contract curve.GenerateKeyPair(random) (p, err)
nilable random
modifies rand
ensures [C15] err == nil ==> p != nil && skOf(val(p).privateKey) == clampF(rnd(rdOf(random), old(rand), 32)) && val(p).publicKey == some(pubOfSk(val(p).privateKey))
ensures [C15] rand == old(rand) + 1
ensures [C15] err == nil <==> rndOk(rdOf(random), old(rand), 32)

contract curve.NewKeyPair(privateKey, publicKey) (p, err)
ensures [C15] (err == nil) <==> (len(privateKey) == 32 && pubOk(publicKey))
ensures [C15] err == nil ==> p != nil && skOf(val(p).privateKey) == clampF(privateKey) && val(val(p).publicKey).key == publicKey[1:33]

contract (*curve.KeyPair).Agreement(k, key) (s, err)
fresh
ensures [C15,C04] (err == nil) <==> dhOk(k.privateKey, key)
ensures [C15,C04] err == nil ==> s == dh(k.privateKey, key)
ensures [C15,C04] err != nil ==> len(s) == 0

contract (*curve.KeyPair).Sign(k, random, messages) (sig, err)
nilable random
modifies rand
fresh
ensures [C16] err == nil ==> sig == xedSig(skOf(k.privateKey), flat(messages), rnd(rdOf(random), old(rand), 64))
ensures [C16] rand == old(rand) + 1
ensures [C16] err == nil <==> rndOk(rdOf(random), old(rand), 64)

lemma [C15,C04] agreementSymmetric: forall a bytes, b bytes :: x25519(a, pubOf(b)) == x25519(b, pubOf(a))
lemma [C15] encPubRoundTrip: forall k curve.DJBPublicKey :: len(k.key) == 32 ==> pubOk("\x05" ++ k.key) && ("\x05" ++ k.key)[1:33] == k.key
