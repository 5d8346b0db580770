"""C14: hierarchical derivation: the path, its order, each child key's inputs and recorded fields, and the errors."""
from .prim import *


def xsk(s, **k):
    return s.S("ExtendedSpendingKey", **k)


def zerr(s, variant, *a):
    return err(s.t.new("zip32::Error", *a, variant=variant))


def master(s, seed, then=ok):
    i = s.blake(64, b"ZcashIP32Orchard", seed)
    sk, cc = slc(i, I(0), I(32)), slc(i, I(32), I(64))
    return s.sk_valid(sk, then(xsk(s, depth=I(0), parent_fvk_tag=s.S("FvkTag", mk("repeat", I(0), I(4))),
                                 child_index=s.S("KeyIndex", NONE), chain_code=s.S("ChainCode", cc), sk=s.S("SpendingKey", sk))),
                      zerr(s, "InvalidSpendingKey"))


def fvfp_tag(s, sk):
    f = s.fvk_of_sk(sk)
    h = s.blake(32, b"ZcashOrchardFVFP", concat(s.ak_bytes(f), s.repr_p(fld(f, "nk", "0")), s.repr_q(fld(f, "rivk", "0"))))
    return s.S("FvkTag", slc(h, I(0), I(4)))


def child_of(s, x, i, then=ok):
    sk, cc = s.child(fld(x, "sk", "0"), fld(x, "chain_code", "0"), call("u32::to_le_bytes", fld(i, "0")))
    return s.sk_valid(sk, then(xsk(s, depth=add(fld(x, "depth"), I(1)), parent_fvk_tag=fvfp_tag(s, fld(x, "sk", "0")),
                                 child_index=s.S("KeyIndex", some(i)), chain_code=s.S("ChainCode", cc), sk=s.S("SpendingKey", sk))),
                      zerr(s, "InvalidSpendingKey"))


def le4(s, i):
    """I2LEOSP_32(i) of a path element"""
    return const(i.a[0].to_bytes(4, "little")) if i.op == "int" else call("u32::to_le_bytes", i)


def zip32_seed(s, seed, coin, account):
    from oflow.arith import add as plus
    H = 1 << 31
    i = s.blake(64, b"ZcashIP32Orchard", seed)
    sk, cc = slc(i, I(0), I(32)), slc(i, I(32), I(64))
    no = zerr(s, "InvalidSpendingKey")
    path = [I(32 + H), plus(coin, I(H)), plus(fld(account, "0"), I(H))]

    def go(sk, cc, rest):
        if not rest:
            return s.sk_valid(sk, ok(s.S("SpendingKey", sk)), no)
        nsk, ncc = s.child(sk, cc, le4(s, rest[0]))
        return s.sk_valid(sk, go(nsk, ncc, rest[1:]), no)
    return iff(t_lt(coin, I(H)), go(sk, cc, path), zerr(s, "InvalidChildIndex", coin))


def along(s, seed, path):
    """the key at a path of known length: one child per index, in order, the first error ends it"""
    def go(x, rest):
        return ok(x) if not rest else child_of(s, x, rest[0], lambda y: go(y, rest[1:]))
    return master(s, seed, lambda x: go(x, path))


def check(R):
    s = Spec(R)
    R.fn("path", "keys::SpendingKey::from_zip32_seed", lambda *a: zip32_seed(s, *a),
         "m_Orchard / 32' / coin_type' / account', each step with the parent's chain code and spending key; errors are reported")
    X = "zip32::ExtendedSpendingKey::"
    R.fn("master", X + "master", lambda seed: master(s, seed), "master key from BLAKE2b-512('ZcashIP32Orchard', seed), depth 0", private=True)
    R.fn("child", X + "derive_child", lambda x, i: child_of(s, x, i),
         "child key from PRF(chain code, [0x81] || sk || I2LEOSP_32(i)); records fingerprint, index, depth + 1", private=True)
    P = X + "from_path"
    if R.has(P):
        seed, path = R.sum(P).args[:2]
        for n in range(5) if len(R.sum(P).args) == 2 else ():
            ix = [index(path, I(k)) for k in range(n)]
            R.fn("path[%d]" % n, P, lambda *a: along(s, seed, ix), "the key at a path of %d indices: one child per index, in order" % n, values=[seed, arr(*ix)])
    R.fn("xsk-sk", X + "sk", lambda x: fld(x, "sk"), "the spending key of an extended key", private=True)
    p = "<zip32::ExtendedSpendingKey as subtle::ConstantTimeEq>::ct_eq"
    R.fn("fingerprint", "<zip32::FvkFingerprint as std::convert::From<&keys::FullViewingKey>>::from",
         lambda f: s.S("FvkFingerprint", s.blake(32, b"ZcashOrchardFVFP", concat(s.ak_bytes(f), s.repr_p(fld(f, "nk", "0")), s.repr_q(fld(f, "rivk", "0"))))),
         "key fingerprint = BLAKE2b-256('ZcashOrchardFVFP', full viewing key)", private=True)
