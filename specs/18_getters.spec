// ---- accessors: each returns exactly the field it names
contract (*message.Signal).Bytes(x) (r)
inline
ensures [C10,C01] r == x.serialized

contract (*message.Signal).Message(x) (r)
inline
ensures [C10,C01] r == x.ciphertext

contract (*message.Signal).Version(x) (r)
inline
ensures [C10,C01] r == x.version

contract (*message.Signal).SenderRatchetKey(x) (r)
inline
ensures [C10,C01] r == x.senderRatchetKey

contract (*message.Signal).Counter(x) (r)
inline
ensures [C10,C01] r == x.counter

contract (*message.Signal).Type(x) (r)
inline
ensures [C10,C01] r == 2

contract (*message.PreKey).Bytes(x) (r)
inline
ensures [C10,C01] r == x.serialized

contract (*message.PreKey).Version(x) (r)
inline
ensures [C10,C01] r == x.version

contract (*message.PreKey).RegistrationID(x) (r)
inline
ensures [C10,C01] r == x.registrationID

contract (*message.PreKey).PreKeyID(x) (r)
inline
ensures [C10,C01] r == x.preKeyID

contract (*message.PreKey).SignedPreKeyID(x) (r)
inline
ensures [C10,C01] r == x.signedPreKeyID

contract (*message.PreKey).BaseKey(x) (r)
inline
ensures [C10,C01] r == x.baseKey

contract (*message.PreKey).IdentityKey(x) (r)
inline
ensures [C10,C01] r == x.identityKey

contract (*message.PreKey).Message(x) (r)
inline
ensures [C10,C01] r == x.message

contract (*message.PreKey).Type(x) (r)
inline
ensures [C10,C01] r == 3

contract (*message.SenderKey).Bytes(x) (r)
inline
ensures [C10,C11] r == x.serialized

contract (*message.SenderKey).Version(x) (r)
inline
ensures [C10,C11] r == x.version

contract (*message.SenderKey).DistributionID(x) (r)
inline
ensures [C10,C11] r == x.distID

contract (*message.SenderKey).ChainID(x) (r)
inline
ensures [C10,C11] r == x.chainID

contract (*message.SenderKey).Iteration(x) (r)
inline
ensures [C10,C11] r == x.iteration

contract (*message.SenderKey).Message(x) (r)
inline
ensures [C10,C11] r == x.ciphertext

contract (*message.SenderKey).Type(x) (r)
inline
ensures [C10,C11] r == 7

contract (*message.SenderKeyDistribution).Bytes(x) (r)
inline
ensures [C10,C13] r == x.serialized

contract (*message.SenderKeyDistribution).Version(x) (r)
inline
ensures [C10,C13] r == x.version

contract (*message.SenderKeyDistribution).DistributionID(x) (r)
inline
ensures [C10,C13] r == x.distID

contract (*message.SenderKeyDistribution).ChainID(x) (r)
inline
ensures [C10,C13] r == x.chainID

contract (*message.SenderKeyDistribution).Iteration(x) (r)
inline
ensures [C10,C13] r == x.iteration

contract (*message.SenderKeyDistribution).ChainKey(x) (r)
inline
ensures [C10,C13] r == x.chainKey

contract (*message.SenderKeyDistribution).SigningKey(x) (r)
inline
ensures [C10,C13] r == x.signingKey

contract (*message.Plaintext).Bytes(x) (r)
inline
ensures [C10] r == x.serialized

contract (*message.Plaintext).Type(x) (r)
inline
ensures [C10] r == 8

contract (ratchet.MessageKeys).CipherKey(x) (r)
inline
ensures [C18] r == x.cipherKey

contract (ratchet.MessageKeys).MACKey(x) (r)
inline
ensures [C18] r == x.macKey

contract (ratchet.MessageKeys).IV(x) (r)
inline
ensures [C18] r == x.iv

contract (ratchet.MessageKeys).Counter(x) (r)
inline
ensures [C18] r == x.counter

contract (ratchet.ChainKey).Index(x) (r)
inline
ensures [C18] r == x.index

contract (ratchet.ChainKey).Key(x) (r)
inline
ensures [C18] r == x.key

contract (ratchet.RootKey).Bytes(x) (r)
inline
ensures [C18] r == x.key

contract (senderkey.MessageKey).CipherKey(x) (r)
inline
ensures [C18] r == x.cipherKey

contract (senderkey.MessageKey).IV(x) (r)
inline
ensures [C18] r == x.iv

contract (senderkey.MessageKey).Seed(x) (r)
inline
ensures [C18] r == x.seed

contract (senderkey.MessageKey).Iteration(x) (r)
inline
ensures [C18] r == x.iteration

contract (senderkey.ChainKey).Iteration(x) (r)
inline
ensures [C18] r == x.iteration

contract (senderkey.ChainKey).Seed(x) (r)
inline
ensures [C18] r == x.chainKey

contract (identity.KeyPair).IdentityKey(x) (r)
inline
ensures [C15] r == x.identityKey

contract (identity.KeyPair).PrivateKey(x) (r)
inline
ensures [C15] r == x.privateKey

contract (identity.KeyPair).PublicKey(x) (r)
inline
ensures [C15] r == x.identityKey.publicKey

contract (identity.Key).PublicKey(x) (r)
inline
ensures [C15] r == x.publicKey

contract (*curve.KeyPair).PrivateKey(x) (r)
inline
ensures [C15] r == x.privateKey

contract (*curve.KeyPair).PublicKey(x) (r)
inline
ensures [C15] r == x.publicKey

contract (session.UnacknowledgedPreKeyMessageItems).PreKeyID(x) (r)
inline
ensures [C21] r == x.preKeyID

contract (session.UnacknowledgedPreKeyMessageItems).SignedPreKeyID(x) (r)
inline
ensures [C21] r == x.signedPreKeyID

contract (session.UnacknowledgedPreKeyMessageItems).BaseKey(x) (r)
inline
ensures [C21] r == x.baseKey

contract (*session.Record).State(x) (r)
inline
ensures [C19] r == x.currentSession

contract (*protocol.inMemSignalProtocolStore).SessionStore(x) (r)
inline
ensures [C22] r == x.sessionStore

contract (*protocol.inMemSignalProtocolStore).PreKeyStore(x) (r)
inline
ensures [C22] r == x.preKeyStore

contract (*protocol.inMemSignalProtocolStore).SignedPreKeyStore(x) (r)
inline
ensures [C22] r == x.signedPreKeyStore

contract (*protocol.inMemSignalProtocolStore).IdentityStore(x) (r)
inline
ensures [C22] r == x.identityStore

contract (*protocol.inMemSignalProtocolStore).GroupStore(x) (r)
inline
ensures [C22] r == x.groupStore
