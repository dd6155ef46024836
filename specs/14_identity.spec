// ---- identity keys (protocol/identity)
typeinv identity.Key(k): k.publicKey != nil
typeinv identity.KeyPair(p): p.privateKey != nil

// 33-byte encoding of an identity key
def encId(k identity.Key) bytes = "\x05" ++ val(k.publicKey).key
def altPfx() bytes = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" ++ "Signal_PNI_Signature"

contract identity.NewKey(key) (k, err)
ensures [C15] (err == nil) <==> pubOk(key)
ensures [C15] err == nil ==> k.publicKey != nil && val(k.publicKey).key == key[1:33]

contract (identity.Key).Bytes(k) (b)
fresh
ensures [C15] b == encId(k)

contract (identity.Key).Equal(k, key) (r)
ensures [C15,C22] r <==> k == key

contract (identity.Key).VerifyAlternateIdentity(k, signature, other) (ok, err)
ensures [C16] ok <==> xedVerify(val(k.publicKey).key, signature, altPfx() ++ encId(other))
ensures [C16] err != nil ==> !ok

contract (identity.KeyPair).SignAlternateIdentity(k, random, other) (sig, err)
nilable random
modifies rand
fresh
ensures [C16] err == nil ==> sig == xedSig(skOf(k.privateKey), altPfx() ++ encId(other), rnd(rdOf(random), old(rand), 64))
ensures [C16] err == nil <==> rndOk(rdOf(random), old(rand), 64)

contract identity.GenerateKeyPair(random) (p, err)
nilable random
modifies rand
ensures [C15] err == nil <==> rndOk(rdOf(random), old(rand), 32)
ensures [C15] err == nil ==> p.privateKey != nil && skOf(p.privateKey) == clampF(rnd(rdOf(random), old(rand), 32)) && p.identityKey.publicKey == some(pubOfSk(p.privateKey))

contract identity.NewKeyPair(privateKey, identityKey) (p)
ensures [C15] p == identity.KeyPair{privateKey: privateKey, identityKey: identityKey}

// ---- pre-keys (protocol/prekey)
def preKeyRec(id int, k curve.KeyPair) v1.PreKeyRecordStructure = v1.PreKeyRecordStructure{Id: id, PublicKey: encPub(k.publicKey), PrivateKey: skOf(k.privateKey)}
def preKeyOk(pub bytes, priv bytes) bool = pubOk(pub) && len(priv) == 32

typeinv prekey.PreKey(p): p.preKey != nil
typeinv prekey.SignedPreKey(p): p.signed != nil

contract prekey.NewPreKey(id, key) (p)
ensures [C15] p != nil && val(p).preKey == some(preKeyRec(id, key))

contract (*prekey.PreKey).KeyPair(s) (k, err)
ensures [C15,C04] (err == nil) <==> preKeyOk(val(s.preKey).PublicKey, val(s.preKey).PrivateKey)
ensures [C15,C04] err == nil ==> k != nil && skOf(val(k).privateKey) == clampF(val(s.preKey).PrivateKey) && val(val(k).publicKey).key == val(s.preKey).PublicKey[1:33]

contract prekey.NewSigned(id, timestamp, key, signature) (p)
ensures [C15] p != nil && val(p).signed == some(v1.SignedPreKeyRecordStructure{Id: id, PublicKey: encPub(key.publicKey), PrivateKey: skOf(key.privateKey), Signature: signature, Timestamp: timestamp})

contract (*prekey.SignedPreKey).KeyPair(s) (k, err)
ensures [C15,C04] (err == nil) <==> preKeyOk(val(s.signed).PublicKey, val(s.signed).PrivateKey)
ensures [C15,C04] err == nil ==> k != nil && skOf(val(k).privateKey) == clampF(val(s.signed).PrivateKey) && val(val(k).publicKey).key == val(s.signed).PublicKey[1:33]

lemma [C15] preKeyRoundTrip: forall k curve.KeyPair, id int :: inv(k) ==> clampF(preKeyRec(id, k).PrivateKey) == skOf(k.privateKey) && preKeyRec(id, k).PublicKey[1:33] == val(k.publicKey).key && preKeyOk(preKeyRec(id, k).PublicKey, preKeyRec(id, k).PrivateKey)
