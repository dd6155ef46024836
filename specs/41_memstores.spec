// ---- in-memory stores
contract identity.NewInMemStore(keyPair, registrationID) (s)
concrete identity.inMemStore
ensures [C22] s != nil && val(s).keyPair == keyPair && val(s).registrationID == registrationID
ensures [C22] forall a address.Address :: {val(s).knownKeys[a]} val(s).knownKeys[a] == nil

contract prekey.NewInMemStore() (s)
concrete prekey.inMemStore
ensures [C22] s != nil
ensures [C22] forall a u32 :: {val(s).preKeys[a]} val(s).preKeys[a] == nil

contract prekey.NewInMemSignedStore() (s)
concrete prekey.inMemSignedStore
ensures [C22] s != nil
ensures [C22] forall a u32 :: {val(s).signedPreKeys[a]} val(s).signedPreKeys[a] == nil

contract session.NewInMemStore() (s)
concrete session.inMemStore
ensures [C22] s != nil
ensures [C22] forall a address.Address :: {val(s).sessions[a]} val(s).sessions[a] == nil

contract session.NewInMemGroupStore() (s)
concrete session.inMemGroupStore
ensures [C22] s != nil
ensures [C22] forall a session.key :: {val(s).senderKeys[a]} val(s).senderKeys[a] == nil

contract (*identity.inMemStore).KeyPair(i, ctx) (k)
ensures [C22] k == i.keyPair

contract (*identity.inMemStore).LocalRegistrationID(i, ctx) (r)
ensures [C22] r == i.registrationID

contract (*identity.inMemStore).Load(i, ctx, address) (k, ok, err)
ensures [C22] err == nil && (ok <==> i.knownKeys[address] != nil) && (ok ==> some(k) == i.knownKeys[address])

contract (*identity.inMemStore).Store(i, ctx, address, identity) (changed, err)
modifies i
ensures [C22] err == nil && i == old(i) with {knownKeys: store(old(i).knownKeys, address, some(identity))}
ensures [C22] changed <==> (old(i).knownKeys[address] != nil && val(old(i).knownKeys[address]) != identity)

contract (*identity.inMemStore).Clear(i) (err)
modifies i
ensures [C22] err == nil && i.keyPair == old(i).keyPair && i.registrationID == old(i).registrationID
ensures [C22] forall a address.Address :: {i.knownKeys[a]} i.knownKeys[a] == nil

contract (*identity.inMemStore).IsTrustedIdentity(i, ctx, address, identity, direction) (ok, err)
ensures [C22,C06] err == nil && (ok <==> (i.knownKeys[address] == nil || val(i.knownKeys[address]) == identity))

contract (*prekey.inMemStore).Load(i, ctx, id) (r, ok, err)
ensures [C22] err == nil && (ok <==> i.preKeys[id] != nil) && (ok ==> r == i.preKeys[id])

contract (*prekey.inMemStore).Store(i, ctx, id, record) (err)
modifies i
ensures [C22] err == nil && i.preKeys == store(old(i).preKeys, id, some(record))

contract (*prekey.inMemStore).Delete(i, ctx, id) (err)
modifies i
ensures [C22,C20] err == nil && i.preKeys == store(old(i).preKeys, id, nil)

contract (*prekey.inMemSignedStore).Load(i, ctx, id) (r, ok, err)
ensures [C22] err == nil && (ok <==> i.signedPreKeys[id] != nil) && (ok ==> r == i.signedPreKeys[id])

contract (*prekey.inMemSignedStore).Store(i, ctx, id, record) (err)
modifies i
ensures [C22] err == nil && i.signedPreKeys == store(old(i).signedPreKeys, id, some(record))

contract (*session.inMemStore).Load(i, ctx, address) (r, ok, err)
fresh
ensures [C22,C08] err == nil && (ok <==> i.sessions[address] != nil)
ensures [C22,C08] ok ==> r == i.sessions[address]

contract (*session.inMemStore).Store(i, ctx, address, record) (err)
modifies i
ensures [C22] err == nil && i.sessions == store(old(i).sessions, address, some(record))

contract (*session.inMemGroupStore).Load(i, ctx, sender, distributionID) (r, ok, err)
fresh
ensures [C22,C08] err == nil && (ok <==> i.senderKeys[session.key{address: sender, id: distributionID}] != nil)
ensures [C22,C08] ok ==> r == i.senderKeys[session.key{address: sender, id: distributionID}]

contract (*session.inMemGroupStore).Store(i, ctx, sender, distributionID, record) (err)
modifies i
ensures [C22] err == nil && i.senderKeys == store(old(i).senderKeys, session.key{address: sender, id: distributionID}, some(record))
