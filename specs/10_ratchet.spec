// ---- symmetric-key ratchet and root chain (protocol/ratchet)

def nextCK(k bytes) bytes = hmac256(k, "\x02")
def mkSeed(k bytes) bytes = hmac256(k, "\x01")
def okm(seed bytes) bytes = hkdf256(seed, [], "WhisperMessageKeys")
def deriveMK(seed bytes, n int) ratchet.MessageKeys = ratchet.MessageKeys{cipherKey: okm(seed)[0:32], macKey: okm(seed)[32:64], iv: okm(seed)[64:80], counter: n}
// message keys of chain key k at index n
def mkOf(k bytes, n int) ratchet.MessageKeys = deriveMK(mkSeed(k), n)

// chain key after n steps
rec ckAt(k bytes, n int) bytes = k | nextCK(prev) len ite(n <= 0, len(k), 32)

typeinv ratchet.ChainKey(c): len(c.key) == 32
typeinv ratchet.RootKey(r): len(r.key) == 32
typeinv ratchet.MessageKeys(m): len(m.cipherKey) == 32 && len(m.macKey) == 32 && len(m.iv) == 16

contract ratchet.NewMessageKeys(cipherKey, macKey, iv, counter) (mk, err)
ensures [C18] (err == nil) <==> (len(cipherKey) == 32 && len(macKey) == 32 && len(iv) == 16)
ensures [C18] err == nil ==> mk == ratchet.MessageKeys{cipherKey: cipherKey, macKey: macKey, iv: iv, counter: counter}

contract ratchet.DeriveMessageKeys(seed, counter) (mk, err)
ensures [C18] err == nil && mk == deriveMK(seed, counter)

contract ratchet.NewChainKey(key, index) (ck, err)
ensures [C18] (err == nil) <==> len(key) == 32
ensures [C18] err == nil ==> ck == ratchet.ChainKey{key: key, index: index}

contract (ratchet.ChainKey).Next(c) (r)
ensures [C18] r == ratchet.ChainKey{key: nextCK(c.key), index: (c.index + 1) % 4294967296}

contract (ratchet.ChainKey).MessageKeys(c) (mk, err)
ensures [C18] err == nil && mk == mkOf(c.key, c.index)

contract ratchet.NewRootKey(key) (rk, err)
ensures [C18] (err == nil) <==> len(key) == 32
ensures [C18] err == nil ==> rk == ratchet.RootKey{key: key}

