import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":["protocol/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if obs:a["observe_at"]=obs
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("C01","Only authentic pairwise messages decrypt",
 "Decrypting a one-to-one message succeeds only if its authentication code verifies, under the message key of its counter on the chain of its ratchet key, over the sender's identity key, the receiver's identity key and every serialized byte before the code, and its version is the session's. In every other case the call returns an error and no plaintext; an error found on the way is never dropped.",
 ["inputs","histories"],"every message, session record and store content",
 "Tests decrypt genuine messages and a handful of single-bit corruptions of one message; forged counters, ratchet keys, versions, identities and error paths are unbounded.",
 ["session/cipher.go","message/signal.go","message/mac.go"],[("MAC verification before decryption","session/cipher.go decryptMessageSession"),("MAC input","message/mac.go mac"),("error propagation","session/cipher.go decryptSignal, decryptPreKey, decryptMessage")],["Session.DecryptMessage"])
p("C02","A pairwise message is accepted at most once",
 "After a one-to-one message has been decrypted, no message with the same ratchet key and counter is ever decrypted again by that session state: the receiving chain moves past its counter, or its saved skipped key is removed, in the same step. A message whose key is gone is refused as a duplicate.",
 ["histories","inputs"],"every receiving history: any order, any gaps, any repetition",
 "Tests replay few fixed orders; the property ranges over all delivery histories of unbounded length.",
 ["session/cipher.go","session/state.go"],[("chain advance","session/cipher.go messageKeys"),("removal of skipped keys","session/state.go State.MessageKeys")],["Session.DecryptMessage"],
 [("receiver chain key index","next counter not yet ratcheted","session/state.go"),("saved message keys","keys of skipped counters","session/state.go")])
p("C03","Out-of-order delivery works within the stated limits",
 "Decrypting a message ahead of the chain saves exactly the keys of the skipped counters, each equal to the key its own counter derives, so that each skipped message can still be decrypted later. At most 25000 counters may be skipped at once unless the session is with oneself, the newest 2000 saved keys are kept per chain, and the five newest receiving chains are kept.",
 ["histories","inputs"],"every jump distance, chain content, number of chains",
 "Tests sample a shuffled window and one over-limit jump; limits, evictions and their off-by-one neighbours and the content of each saved key are not sampled.",
 ["session/cipher.go","session/state.go"],[("ratchet loop","session/cipher.go messageKeys"),("key eviction","session/state.go SetMessageKeys"),("chain eviction","session/state.go AddReceiverChain")],["Session.DecryptMessage"])
p("C04","Both ends derive the same session secrets",
 "For all identity, base, signed and one-time pre-keys, the initiator's session made from a bundle and the responder's session made from the initiator's first message have equal root and chain secrets, with and without a one-time pre-key, and each ratchet step gives sender and receiver the same new root and chain keys. Hence what one end encrypts the other decrypts to the same bytes.",
 ["inputs","histories"],"all keys, all numbers of ratchet turns",
 "Tests use a few random key sets and scripted conversations.",
 ["session/session.go","session/cipher.go","ratchet/keys.go","ratchet/ratchet.go"],[("X3DH agreements and their order","session/session.go initializeAliceSession, initializeBobSession"),("DH ratchet","session/cipher.go chainKey")],["Session.ProcessPreKeyBundle","Session.DecryptMessage","Session.EncryptMessage"])
p("C05","Every message is encrypted under a fresh key",
 "A successful one-to-one or group encryption uses the message key of the current sending-chain position, labels the message with that position, and has stored the session with the sending chain advanced by exactly one step before it returns the ciphertext. A position is therefore never used for two messages.",
 ["histories","fault_sequences","inputs"],"every sending history, including failing stores",
 "Tests never look at the stored chain after each send nor make a store fail.",
 ["session/cipher.go","session/group_cipher.go","ratchet/keys.go","senderkey/keys.go"],[("chain advance before return","session/cipher.go EncryptMessage, session/group_cipher.go EncryptMessage")],["Session.EncryptMessage","GroupSession.EncryptMessage"])
p("C06","Untrusted identities are refused",
 "When the identity store says that a remote identity key is not trusted (or fails to answer), encrypting to it, decrypting from it, and building a session from its bundle or its pre-key message all return an error, return no plaintext or ciphertext and store nothing. The key that is checked and stored is the one the session or message actually uses, for the remote address of the session and the direction of the call.",
 ["inputs","configurations"],"every identity-store policy, key, address and direction",
 "Tests use one in-memory store with one replaced key.",
 ["session/cipher.go","session/session.go"],[("trust checks","session/cipher.go EncryptMessage, decryptSignal; session/session.go ProcessPreKey, ProcessPreKeyBundle")],["Session.*"])
p("C07","A bundle is used only with a valid signed pre-key",
 "A session is created from a pre-key bundle only if the bundle's signature over the encoded signed pre-key verifies under the bundle's identity key; otherwise the call fails and no store changes.",
 ["inputs"],"every bundle",
 "Tests flip bits of one signature; other keys, lengths and messages are not sampled.",
 ["session/session.go","curve/djb_public.go","curve/curve25519/curve25519.go"],[("signature check","session/session.go ProcessPreKeyBundle")],["Session.ProcessPreKeyBundle"])
p("C08","A failed call leaves the stores unchanged",
 "If encryption, decryption, bundle processing or sender-key processing returns an error that no store reported, every store has the content it had before the call, whatever the message was. Records loaded from the in-memory stores can be changed freely without changing the store.",
 ["inputs","histories","fault_sequences"],"every message, record and failure point",
 "Tests rarely look at a store after a failure.",
 ["session/cipher.go","session/session.go","session/group_cipher.go","session/group_session.go","session/store_inmem.go"],[("work on copies, store last","session/cipher.go, session/group_cipher.go"),("copies on load","session/store_inmem.go")],["stores"])
p("C09","Malformed input never crashes the library",
 "Parsing any bytes as a message, key or fingerprint, and processing any message that parsing accepts, ends in a result or an error and never in a panic. This includes empty and truncated input, unknown pre-key identifiers, low-order keys and wrong lengths.",
 ["inputs"],"all byte strings and all parsed messages",
 "Tests parse well-formed bytes.",
 ["message/*.go","session/*.go","curve/*.go","curve/curve25519/*.go","crypto/aes/aes.go","fingerprint/*.go","ratchet/*.go"],[("length checks before slicing","message/signal.go, message/senderkey.go, curve/public.go, ..."),("nil checks","session/session.go")],["every exported function taking bytes or messages"])
p("C10","Messages survive serialization",
 "Parsing the bytes of a message gives a message with the same version, counters, identifiers, keys and ciphertext, and the same bytes again; the first byte carries the version. An accepted message carries exactly the fields its bytes encode.",
 ["inputs"],"all field values of all message kinds",
 "Tests serialize one example per kind.",
 ["message/*.go"],[("constructors and parsers","message/signal.go, message/prekey.go, message/senderkey.go")],["NewSignal*, NewPreKey*, NewSenderKey*"])
p("C11","Only authentic group messages decrypt",
 "Decrypting a group message succeeds only if its signature over every serialized byte before it verifies under the signing key stored for its sender, distribution and chain identifier, and its version is that state's version. In every other case the call returns an error and no plaintext.",
 ["inputs","histories"],"every group message and record",
 "Tests use genuine messages and one signature flip.",
 ["session/group_cipher.go","session/group_record.go","message/senderkey.go"],[("signature check before key use","session/group_cipher.go DecryptMessage")],["GroupSession.DecryptMessage"])
p("C12","Group messages: once each, in any order, within limits",
 "A group message iteration is decrypted at most once; a message ahead of the chain saves exactly the keys of the skipped iterations, each equal to what its iteration derives, so they can be decrypted later. At most 25000 iterations may be skipped at once and the newest 2000 saved keys are kept.",
 ["histories","inputs"],"every delivery history",
 "Tests shuffle one window and try one over-limit jump.",
 ["session/group_cipher.go","session/group_state.go","senderkey/keys.go"],[("ratchet loop","session/group_cipher.go messageKey"),("saved keys","session/group_state.go AddMessageKey, RemoveMessageKeys")],["GroupSession.DecryptMessage"])
p("C13","Sender-key distributions never rewind a chain",
 "Processing a distribution message whose chain identifier and signing key are already known keeps the stored chain, its position and its saved keys; with a different signing key it replaces the old state. A record has at most one state per chain identifier and at most the five newest states, and other states are untouched.",
 ["histories","inputs"],"every record and distribution message",
 "Tests cover one record per case.",
 ["session/group_record.go","session/group_session.go"],[("replace-or-keep","session/group_record.go AddState")],["GroupSession.ProcessSenderKeyDistribution"])
p("C14","AES-CBC with PKCS#7 is a faithful round trip",
 "Encrypting appends 1 to 16 bytes of padding each equal to the padding length and decrypting what was encrypted under the same key and IV returns the plaintext, for every plaintext length; unusable keys, IVs, lengths and padding lengths are errors. Neither direction writes to memory reachable from its arguments.",
 ["inputs"],"every key, IV and plaintext, including slices with spare capacity",
 "Tests use few vectors and exact-capacity slices.",
 ["crypto/aes/aes.go"],[("padding","crypto/aes/aes.go pkcs7pad, pkcs7unpad")],["CBCEncrypt","CBCDecrypt"])
p("C15","Keys encode faithfully and agree",
 "Encoding a public or private key and decoding it gives an equal key; decoding accepts exactly inputs of the right type byte and length; two public keys are equal exactly when their bytes are. The two ends of a key agreement compute the same secret, and a low-order or wrong-length key gives an error.",
 ["inputs"],"all key bytes",
 "Tests sample random keys.",
 ["curve/*.go","curve/curve25519/*.go","identity/keys.go"],[("encoders and decoders","curve/public.go, curve/djb_public.go, curve/curve25519/curve25519.go")],["curve.NewPublicKey","curve.NewPrivateKey","Agreement"])
p("C16","Signatures verify exactly what was signed",
 "A signature is computed over, and verified against, exactly the concatenation of the given message parts with the signer's key and sign bit as XEdDSA prescribes, so a genuine signature verifies, and verification consults every byte of signature, key and parts. An alternate-identity signature always covers its fixed prefix, so that it is never a signature of a bare key.",
 ["inputs"],"all keys, random values and message parts",
 "Tests sample random keys and short messages.",
 ["curve/curve25519/*.go","identity/keys.go"],[("XEdDSA","curve/curve25519/curve25519.go Sign, VerifySignature"),("domain separation","identity/keys.go SignAlternateIdentity")],["Sign","VerifySignature","VerifyAlternateIdentity"])
p("C17","Fingerprints are symmetric, complete and comparable",
 "A fingerprint depends on the identifier and key of both parties through the prescribed iterated hash, its displayable form is the same 60 digits on both ends, and a scanned fingerprint matches exactly when versions are equal and each side's local equals the other's remote hash. Unusable iteration counts and lengths are errors.",
 ["inputs"],"all identifiers, keys, iteration counts and scanned bytes",
 "Tests check few vectors.",
 ["fingerprint/*.go"],[("iterated hash","fingerprint/fingerprint.go fingerprint"),("encoding","fingerprint/encode.go"),("comparison","fingerprint/scannable.go Compare")],["fingerprint.New","Displayable.String","Scannable.Compare"])
p("C18","The key schedule is Signal's",
 "Message keys, chain keys, root keys and sender keys are derived exactly as the Signal protocol prescribes: HMAC-SHA256 with seeds 1 and 2 for chains, HKDF-SHA256 with the prescribed labels, salts and output splits, and chain positions that grow by one. Serialized keys of the wrong length are refused.",
 ["inputs"],"all key material and positions",
 "Tests check one vector per function.",
 ["ratchet/keys.go","ratchet/ratchet.go","senderkey/keys.go"],[("derivations","ratchet/keys.go, ratchet/ratchet.go, senderkey/keys.go")],["ratchet.*","senderkey.*"])
p("C19","Session archive keeps and restores old sessions",
 "Starting or promoting a session archives the current one unchanged, at most 40 archived sessions are kept and only the oldest is dropped, and promoting an archived session removes exactly that one from the archive. A message for an archived session decrypts with it, and a known pre-key message is recognised by version and base key in the current and every archived session.",
 ["histories","inputs"],"every record and sequence of promotions",
 "Tests never archive more than a few sessions.",
 ["session/record.go","session/cipher.go"],[("archive","session/record.go ArchiveCurrentState, PromoteState, PromoteOldState, HasSessionState")],["Record.*"])
p("C20","A one-time pre-key is consumed exactly when used",
 "When a pre-key message establishes a session with a one-time pre-key, that pre-key and no other is deleted, after the decrypted session is stored; a message that fails, names no one-time pre-key or falls into a known session deletes none. A message naming a missing one-time or signed pre-key is refused.",
 ["histories","inputs","fault_sequences"],"every pre-key message, store content and failing store call",
 "Tests check one pre-key in one history.",
 ["session/cipher.go","session/session.go"],[("deletion after store","session/cipher.go decryptPreKey"),("lookups","session/session.go processPreKeyV3")],["PreKeyStore.Delete"])
p("C21","Pre-key messages repeat until acknowledged",
 "After a session is created from a bundle, every message sent is a pre-key message carrying the registration identifier, base key, identity key and the pre-key identifiers of the bundle, until the first message of the peer is decrypted; after that messages are plain. Nothing but a decrypted message clears the pending data.",
 ["histories","inputs"],"every bundle and conversation",
 "Tests check message types at two points.",
 ["session/cipher.go","session/session.go","session/state.go"],[("pending pre-key","session/state.go SetUnacknowledgedPreKeyMessage, UnacknowledgedPreKeyMessages, ClearUnacknowledgedPreKeyMessage")],["Session.EncryptMessage"])
p("C22","In-memory stores return what was stored",
 "Each in-memory store returns, for every address, identifier or distribution, exactly the value last stored under that key and reports absence otherwise; operations on one key leave all others alone. Storing an identity reports a change exactly when a different key was known, and an unknown or equal identity is trusted while a different one is not.",
 ["histories","inputs"],"all keys, values and operation sequences",
 "Tests use one or two addresses.",
 ["session/store_inmem.go","prekey/store_inmem.go","identity/store_inmem.go","protocol/store_inmem.go"],[("maps","*/store_inmem.go")],["stores"])
p("C23","Secret-dependent comparisons take constant time",
 "Comparing authentication codes, keys and fingerprints takes a time that does not depend on where the compared values differ.",
 ["inputs"],"all pairs of equal-length values",
 "Timing is not observed by any test.",
 ["message/signal.go","curve/djb_public.go","fingerprint/scannable.go"],[("constant-time compare","hmac.Equal, subtle.ConstantTimeCompare")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['title']
