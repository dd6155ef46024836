// ---- the user's stores: what a conforming implementation does. `failed` records that some call reported an error.
ghost SessG { m map<address.Address, opt<session.Record>>, failed bool }
ghosttype session.Store = SessG
ghost IdG { m map<address.Address, opt<identity.Key>>, self identity.KeyPair, reg u32, failed bool }
ghosttype identity.Store = IdG
ghost PreG { m map<u32, opt<prekey.PreKey>>, failed bool }
ghosttype prekey.Store = PreG
ghost SignG { m map<u32, opt<prekey.SignedPreKey>>, failed bool }
ghosttype prekey.SignedStore = SignG

// is key k trusted for address a in direction d, given the keys stored
func trusts(m map<address.Address, opt<identity.Key>>, a address.Address, k identity.Key, d int) bool

contract session.Store.Load(s, ctx, address) (r, ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> s.m[address] != nil) && (ok ==> r == s.m[address])

contract session.Store.Store(s, ctx, address, record) (err)
modifies s
ensures s.failed <==> (old(s).failed || err != nil)
ensures err == nil ==> s.m == store(old(s).m, address, some(record))

contract identity.Store.KeyPair(s, ctx) (k)
ensures k == s.self

contract identity.Store.LocalRegistrationID(s, ctx) (id)
ensures id == s.reg

contract identity.Store.Load(s, ctx, address) (k, ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> s.m[address] != nil) && (ok ==> some(k) == s.m[address])

contract identity.Store.Store(s, ctx, address, identity) (changed, err)
modifies s
ensures s.failed <==> (old(s).failed || err != nil)
ensures s.self == old(s).self && s.reg == old(s).reg
ensures err == nil ==> s.m == store(old(s).m, address, some(identity))

contract identity.Store.IsTrustedIdentity(s, ctx, address, identity, direction) (ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> trusts(s.m, address, identity, direction))

contract prekey.Store.Load(s, ctx, id) (r, ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> s.m[id] != nil) && (ok ==> r == s.m[id])

contract prekey.Store.Delete(s, ctx, id) (err)
modifies s
ensures s.failed <==> (old(s).failed || err != nil)
ensures err == nil ==> s.m == store(old(s).m, id, nil)

contract prekey.SignedStore.Load(s, ctx, id) (r, ok, err)
modifies s
ensures s == old(s) with {failed: old(s).failed || err != nil}
ensures err == nil ==> (ok <==> s.m[id] != nil) && (ok ==> r == s.m[id])
