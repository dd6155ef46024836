// ---- messages (protocol/message)
def optB(o opt<int>) int = ite(o == nil, 0, val(o))
def verByte(v int) int = (v % 16) * 16 + 3

// message authentication code over identities and serialized bytes
def macF(k bytes, s identity.Key, r identity.Key, m bytes) bytes = hmac256(k, encId(s) ++ encId(r) ++ m)[0:8]

axiom rtSignal: forall m v1.SignalMessage :: {marshal(m)} unmarshalOk(v1.SignalMessage, marshal(m)) && unmarshal(v1.SignalMessage, marshal(m)) == m
axiom rtPreKeyMsg: forall m v1.PreKeySignalMessage :: {marshal(m)} unmarshalOk(v1.PreKeySignalMessage, marshal(m)) && unmarshal(v1.PreKeySignalMessage, marshal(m)) == m
axiom rtSenderKey: forall m v1.SenderKeyMessage :: {marshal(m)} unmarshalOk(v1.SenderKeyMessage, marshal(m)) && unmarshal(v1.SenderKeyMessage, marshal(m)) == m
axiom rtSenderKeyDist: forall m v1.SenderKeyDistributionMessage :: {marshal(m)} unmarshalOk(v1.SenderKeyDistributionMessage, marshal(m)) && unmarshal(v1.SenderKeyDistributionMessage, marshal(m)) == m

typeinv message.Signal(s): s.senderRatchetKey != nil && len(s.serialized) >= 9

def signalPb(k curve.PublicKey, counter int, prev int, ct bytes) v1.SignalMessage = v1.SignalMessage{RatchetKey: encPub(k), Counter: some(counter), PreviousCounter: some(prev), Ciphertext: ct}
def signalBody(v int, k curve.PublicKey, counter int, prev int, ct bytes) bytes = unit(verByte(v)) ++ marshal(signalPb(k, counter, prev, ct))
def signalMsg(v int, k curve.PublicKey, counter int, prev int, ct bytes, mk bytes, s identity.Key, r identity.Key) message.Signal = message.Signal{version: v, senderRatchetKey: k, previousCounter: prev, counter: counter, ciphertext: ct, serialized: signalBody(v, k, counter, prev, ct) ++ macF(mk, s, r, signalBody(v, k, counter, prev, ct))}

// parsing of a Signal message
def sigPb(b bytes) v1.SignalMessage = unmarshal(v1.SignalMessage, b[1:len(b)-8])
def sigParses(b bytes) bool = len(b) >= 9 && b[0] / 16 == 3 && unmarshalOk(v1.SignalMessage, b[1:len(b)-8]) && pubOk(sigPb(b).RatchetKey)
def sigParse(b bytes) message.Signal = message.Signal{version: 3, senderRatchetKey: mkPub(sigPb(b).RatchetKey[1:33]), previousCounter: optB(sigPb(b).PreviousCounter), counter: optB(sigPb(b).Counter), ciphertext: sigPb(b).Ciphertext, serialized: b}
def sigMacOk(m message.Signal, k bytes, s identity.Key, r identity.Key) bool = macF(k, s, r, m.serialized[0:len(m.serialized)-8]) == m.serialized[len(m.serialized)-8:len(m.serialized)]

contract message.mac(macKey, senderIdentityKey, receiverIdentityKey, message) (m, err)
ensures [C01,C18] (err == nil) <==> len(macKey) == 32
ensures [C01,C18] err == nil ==> m == macF(macKey, senderIdentityKey, receiverIdentityKey, message)

contract message.NewSignal(cfg) (m, err)
requires cfg.SenderRatchetKey != nil
ensures [C10,C18] (err == nil) <==> len(cfg.MACKey) == 32
ensures [C10,C18] err == nil ==> isA(m, Signal) && asA(m, Signal) == signalMsg(cfg.Version, cfg.SenderRatchetKey, cfg.Counter, cfg.PreviousCounter, cfg.Ciphertext, cfg.MACKey, cfg.SenderIdentityKey, cfg.ReceiverIdentityKey)

contract message.NewSignalFromBytes(bytes) (m, err)
ensures [C10,C09] (err == nil) <==> sigParses(bytes)
ensures [C10,C01] err == nil ==> isA(m, Signal) && asA(m, Signal) == sigParse(bytes)

contract (*message.Signal).VerifyMAC(s, macKey, senderIdentityKey, receiverIdentityKey) (ok, err)
ensures [C01,C10] (err == nil) <==> len(macKey) == 32
ensures [C01,C10] ok <==> (len(macKey) == 32 && sigMacOk(s, macKey, senderIdentityKey, receiverIdentityKey))

typeinv message.PreKey(p): p.baseKey != nil && p.message != nil

def pkPb(b bytes) v1.PreKeySignalMessage = unmarshal(v1.PreKeySignalMessage, b[1:len(b)])
def pkParses(b bytes) bool = len(b) >= 1 && b[0] / 16 == 3 && unmarshalOk(v1.PreKeySignalMessage, b[1:len(b)]) && pubOk(pkPb(b).BaseKey) && pubOk(pkPb(b).IdentityKey) && sigParses(pkPb(b).Message)
def pkParse(b bytes) message.PreKey = message.PreKey{version: 3, registrationID: optB(pkPb(b).RegistrationId), preKeyID: pkPb(b).PreKeyId, signedPreKeyID: optB(pkPb(b).SignedPreKeyId), baseKey: mkPub(pkPb(b).BaseKey[1:33]), identityKey: identity.Key{publicKey: mkPub(pkPb(b).IdentityKey[1:33])}, message: sigParse(pkPb(b).Message), serialized: b}
def preKeyPb(reg int, pk opt<int>, spk int, base curve.PublicKey, id identity.Key, msg bytes) v1.PreKeySignalMessage = v1.PreKeySignalMessage{RegistrationId: some(reg), PreKeyId: pk, SignedPreKeyId: some(spk), BaseKey: encPub(base), IdentityKey: encId(id), Message: msg}
def preKeyMsg(v int, reg int, pk opt<int>, spk int, base curve.PublicKey, id identity.Key, msg message.Signal) message.PreKey = message.PreKey{version: v, registrationID: reg, preKeyID: pk, signedPreKeyID: spk, baseKey: base, identityKey: id, message: msg, serialized: unit(verByte(v)) ++ marshal(preKeyPb(reg, pk, spk, base, id, msg.serialized))}

contract message.NewPreKey(cfg) (m, err)
requires cfg.BaseKey != nil && cfg.Message != nil
ensures [C10] err == nil
ensures [C10] isA(m, PreKey) && asA(m, PreKey) == preKeyMsg(cfg.Version, cfg.RegistrationID, cfg.PreKeyID, cfg.SignedPreKeyID, cfg.BaseKey, cfg.IdentityKey, val(cfg.Message))

contract message.NewPreKeyFromBytes(bytes) (m, err)
ensures [C10,C09] (err == nil) <==> pkParses(bytes)
ensures [C10,C01] err == nil ==> isA(m, PreKey) && asA(m, PreKey) == pkParse(bytes)

// what is read back is what was sent
lemma [C10] signalRoundTrip: forall v u8, k curve.PublicKey, c u32, p u32, ct bytes, mk bytes, s identity.Key, r identity.Key :: (v == 3 && k != nil && inv(k)) ==> sigParses(signalMsg(v, k, c, p, ct, mk, s, r).serialized) && sigParse(signalMsg(v, k, c, p, ct, mk, s, r).serialized) == signalMsg(v, k, c, p, ct, mk, s, r) && sigMacOk(signalMsg(v, k, c, p, ct, mk, s, r), mk, s, r)
lemma [C10] preKeyMsgRoundTrip: forall reg u32, pk opt<int>, spk u32, base curve.PublicKey, id identity.Key, b bytes :: (base != nil && inv(base) && inv(id) && sigParses(b)) ==> pkParses(preKeyMsg(3, reg, pk, spk, base, id, sigParse(b)).serialized) && pkParse(preKeyMsg(3, reg, pk, spk, base, id, sigParse(b)).serialized) == preKeyMsg(3, reg, pk, spk, base, id, sigParse(b))

// ---- sender-key messages
typeinv message.SenderKey(s): len(s.serialized) >= 65
def skBody(v int, d distribution.ID, chain int, it int, ct bytes) bytes = unit(verByte(v)) ++ marshal(v1.SenderKeyMessage{DistributionUuid: uuidStr(d.id), ChainId: some(chain), Iteration: some(it), Ciphertext: ct})
def skMsg(v int, d distribution.ID, chain int, it int, ct bytes, sig bytes) message.SenderKey = message.SenderKey{version: 3, distID: d, chainID: chain, iteration: it, ciphertext: ct, serialized: skBody(v, d, chain, it, ct) ++ sig}
def skPb(b bytes) v1.SenderKeyMessage = unmarshal(v1.SenderKeyMessage, b[1:len(b)-64])
def skParses(b bytes) bool = len(b) >= 65 && b[0] / 16 == 3 && unmarshalOk(v1.SenderKeyMessage, b[1:len(b)-64]) && uuidOk(skPb(b).DistributionUuid)
def skParse(b bytes) message.SenderKey = message.SenderKey{version: 3, distID: distribution.ID{id: uuidVal(skPb(b).DistributionUuid)}, chainID: optB(skPb(b).ChainId), iteration: optB(skPb(b).Iteration), ciphertext: skPb(b).Ciphertext, serialized: b}
def skSigOk(m message.SenderKey, k curve.PublicKey) bool = xedVerify(val(k).key, m.serialized[len(m.serialized)-64:len(m.serialized)], m.serialized[0:len(m.serialized)-64])

contract message.NewSenderKey(random, cfg) (m, err)
nilable random
modifies rand
requires cfg.SignatureKey != nil
where sig = xedSig(skOf(cfg.SignatureKey), skBody(cfg.Version, cfg.DistID, cfg.ChainID, cfg.Iteration, cfg.Ciphertext), rnd(rdOf(random), old(rand), 64))
ensures [C10,C11] err == nil ==> m == some(skMsg(cfg.Version, cfg.DistID, cfg.ChainID, cfg.Iteration, cfg.Ciphertext, sig))
ensures [C10,C11] err == nil <==> rndOk(rdOf(random), old(rand), 64)

contract message.NewSenderKeyFromBytes(bytes) (m, err)
ensures [C10,C09] (err == nil) <==> skParses(bytes)
ensures [C10,C11] err == nil ==> m == some(skParse(bytes))

contract (*message.SenderKey).VerifySignature(s, signatureKey) (ok, err)
ensures [C11,C10] ok <==> skSigOk(s, signatureKey)
ensures [C11,C10] err != nil ==> !ok

lemma [C10] senderKeyRoundTrip: forall d distribution.ID, ch u32, it u32, ct bytes, sig bytes :: (len(d.id) == 16 && len(sig) == 64) ==> skParses(skMsg(3, d, ch, it, ct, sig).serialized) && skParse(skMsg(3, d, ch, it, ct, sig).serialized) == skMsg(3, d, ch, it, ct, sig)

// ---- sender-key distribution messages
typeinv message.SenderKeyDistribution(s): s.signingKey != nil
def skdPb(d distribution.ID, chain int, it int, ck bytes, k curve.PublicKey) v1.SenderKeyDistributionMessage = v1.SenderKeyDistributionMessage{DistributionUuid: uuidStr(d.id), ChainId: some(chain), Iteration: some(it), ChainKey: ck, SigningKey: encPub(k)}
def skdMsg(v int, d distribution.ID, chain int, it int, ck bytes, k curve.PublicKey) message.SenderKeyDistribution = message.SenderKeyDistribution{version: v, distID: d, chainID: chain, iteration: it, chainKey: ck, signingKey: k, serialized: unit(verByte(v)) ++ marshal(skdPb(d, chain, it, ck, k))}
def skdUn(b bytes) v1.SenderKeyDistributionMessage = unmarshal(v1.SenderKeyDistributionMessage, b[1:len(b)])
def skdParses(b bytes) bool = len(b) >= 65 && b[0] / 16 == 3 && unmarshalOk(v1.SenderKeyDistributionMessage, b[1:len(b)]) && uuidOk(skdUn(b).DistributionUuid) && len(skdUn(b).ChainKey) == 32 && pubOk(skdUn(b).SigningKey)
def skdParse(b bytes) message.SenderKeyDistribution = message.SenderKeyDistribution{version: 3, distID: distribution.ID{id: uuidVal(skdUn(b).DistributionUuid)}, chainID: optB(skdUn(b).ChainId), iteration: optB(skdUn(b).Iteration), chainKey: skdUn(b).ChainKey, signingKey: mkPub(skdUn(b).SigningKey[1:33]), serialized: b}

contract message.NewSenderKeyDistribution(cfg) (m, err)
requires cfg.SigningKey != nil
ensures [C10,C13] err == nil && m == some(skdMsg(cfg.Version, cfg.DistID, cfg.ChainID, cfg.Iteration, cfg.ChainKey, cfg.SigningKey))

contract message.NewSenderKeyDistributionFromBytes(bytes) (m, err)
ensures [C10,C09] (err == nil) <==> skdParses(bytes)
ensures [C10,C13] err == nil ==> m == some(skdParse(bytes))

// the encoding of a distribution message holds the two keys, so it is long enough
axiom skdLen: forall m v1.SenderKeyDistributionMessage :: {marshal(m)} len(marshal(m)) >= len(m.ChainKey) + len(m.SigningKey)
lemma [C10] senderKeyDistRoundTrip: forall d distribution.ID, ch u32, it u32, ck bytes, k curve.PublicKey :: (len(d.id) == 16 && len(ck) == 32 && k != nil && inv(k)) ==> skdParses(skdMsg(3, d, ch, it, ck, k).serialized) && skdParse(skdMsg(3, d, ch, it, ck, k).serialized) == skdMsg(3, d, ch, it, ck, k)

contract message.NewPlaintextFromBytes(bytes) (p, err)
ensures [C10] (err == nil) <==> (len(bytes) > 0 && bytes[0] == 192)
ensures [C10] err == nil ==> p != nil && val(p).serialized == bytes

typeinv message.Plaintext(p): len(p.serialized) >= 1
contract (*message.Plaintext).Message(p) (b)
ensures [C10] b == p.serialized[1:len(p.serialized)]
