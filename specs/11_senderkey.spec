// ---- sender keys (protocol/senderkey)

def gSeed(k bytes) bytes = hmac256(k, "\x01")
def gOkm(seed bytes) bytes = hkdf256(seed, [], "WhisperGroup")
def deriveGMK(seed bytes, n int) senderkey.MessageKey = senderkey.MessageKey{cipherKey: gOkm(seed)[16:48], iv: gOkm(seed)[0:16], seed: seed, iteration: n}
def gmkOf(k bytes, n int) senderkey.MessageKey = deriveGMK(gSeed(k), n)

typeinv senderkey.MessageKey(m): len(m.cipherKey) == 32 && len(m.iv) == 16

contract senderkey.DeriveMessageKey(seed, iteration) (mk, err)
ensures [C18] err == nil && mk == deriveGMK(seed, iteration)

contract senderkey.NewChainKey(chainKey, iteration) (ck)
ensures [C18] ck == senderkey.ChainKey{chainKey: chainKey, iteration: iteration}

contract (senderkey.ChainKey).Next(c) (r)
ensures [C18] r == senderkey.ChainKey{chainKey: nextCK(c.chainKey), iteration: (c.iteration + 1) % 4294967296}

contract (senderkey.ChainKey).MessageKey(c) (mk, err)
ensures [C18] err == nil && mk == gmkOf(c.chainKey, c.iteration)
