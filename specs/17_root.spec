// ---- root chain (protocol/ratchet)
// the agreement output is mixed into the root key, which is the HKDF salt
def rkdf(root bytes, d bytes) bytes = hkdf256(d, root, "WhisperRatchet")
def ikdf(secret bytes) bytes = hkdf256(secret, [], "WhisperText")

contract (ratchet.RootKey).CreateChain(r, ourRatchetKey, theirRatchetKey) (rk, ck, err)
ensures [C18] (err == nil) <==> dhOk(ourRatchetKey, theirRatchetKey)
ensures [C18,C04] err == nil ==> rk == ratchet.RootKey{key: rkdf(r.key, dh(ourRatchetKey, theirRatchetKey))[0:32]} && ck == ratchet.ChainKey{key: rkdf(r.key, dh(ourRatchetKey, theirRatchetKey))[32:64], index: 0}

contract ratchet.DeriveKeys(secretInput) (rk, ck, err)
ensures [C18,C04] err == nil && rk == ratchet.RootKey{key: ikdf(secretInput)[0:32]} && ck == ratchet.ChainKey{key: ikdf(secretInput)[32:64], index: 0}
