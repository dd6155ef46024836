// ---- AES-CBC with PKCS #7 padding (protocol/crypto/aes)

def padLen(n int) int = 16 - n % 16
def pad(p bytes) bytes = p ++ rep(padLen(len(p)), padLen(len(p)))
def aesKeyOk(k bytes) bool = len(k) == 16 || len(k) == 24 || len(k) == 32
def lastByte(p bytes) int = p[len(p) - 1]
def padOk(p bytes) bool = 1 <= lastByte(p) && lastByte(p) <= 16
def unpad(p bytes) bytes = p[0:len(p) - lastByte(p)]

template exact fillBytes(a bytes, b int, i int): 0 <= init(i) && init(i) <= i && i <= len(init(a)) && a == init(a)[0:init(i)] ++ rep(b, i - init(i)) ++ init(a)[i:len(init(a))]

contract crypto/aes.CBCEncrypt(key, iv, plaintext) (ct, err)
fresh
ensures [C14] (err == nil) <==> (aesKeyOk(key) && len(iv) == 16)
ensures [C14] err == nil ==> ct == cbcEnc(key, iv, pad(plaintext))
ensures [C14] err != nil ==> len(ct) == 0

contract crypto/aes.CBCDecrypt(key, iv, ciphertext) (pt, err)
fresh
ensures [C14] (err == nil) <==> (aesKeyOk(key) && len(iv) == 16 && len(ciphertext) > 0 && len(ciphertext) % 16 == 0 && padOk(cbcDec(key, iv, ciphertext)))
ensures [C14] err == nil ==> pt == unpad(cbcDec(key, iv, ciphertext))
ensures [C14] err != nil ==> len(pt) == 0

lemma [C14] cbcRoundTrip: forall k bytes, iv bytes, p bytes :: unpad(cbcDec(k, iv, cbcEnc(k, iv, pad(p)))) == p && padOk(pad(p)) && len(pad(p)) % 16 == 0 && len(pad(p)) > len(p)
