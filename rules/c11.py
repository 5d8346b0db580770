"""C11: a spending key or full viewing key is accepted, from bytes, a reader or by derivation, only if it has valid incoming keys in both scopes."""
from .prim import *
from .c10 import ivk_parse
from .c14 import zip32_seed, master, child_of


def check(R):
    s = Spec(R)
    R.fn("sk-bytes", "keys::SpendingKey::from_bytes", lambda b: s.sk_valid(b, some(s.S("SpendingKey", b)), NONE),
         "a spending key is accepted only if ask is non-zero and both scopes' ivk exist and are non-zero")
    R.fn("fvk-bytes", "keys::FullViewingKey::from_bytes", lambda b: s.fvk_parse(b, some, NONE),
         "a full viewing key is accepted only if its components are valid and both scopes' ivk exist and are non-zero")
    p = "keys::FullViewingKey::read"
    if R.has(p):
        sm = R.sum(p)
        rd = sm.args[0]
        rds = [x for x in subterms(sm.ret) if x.op == "call" and "read_exact" in x.a[0]]
        good = len(rds) == 1
        R.ob("fvk-read-once", p, good, "reads exactly one block from the reader", dag(sm.ret)[:300], val=sm.ret)
        if good:
            r = rds[0]
            buf = mk("mut", r.a[0], 1, *r.a[1:])
            exp = lambda e: case(r, [("Err", err(fld(as_(r, "Err"), "0"))), ("Ok", s.fvk_parse(buf, ok, e))])
            errs = [x for x in leaves(sm.ret) if x.op == "agg" and x.a[1] == "Err" and not under(r, x)]
            R.eq("fvk-read", p, erase_err(sm.ret, r), erase_err(exp(err(I(0))), r), "the reader's full viewing key passes the same validation")
            n = length(r.a[2])
            R.ob("fvk-read-len", p, n is I(96), "a full viewing key is 96 bytes", dag(n), val=n)
    R.fn("ivk-bytes", "keys::IncomingViewingKey::from_bytes", lambda b: ivk_parse(s, b), "a decoded incoming viewing key has a non-zero scalar")
    R.fn("master", "zip32::ExtendedSpendingKey::master", lambda seed: master(s, seed), "a seed that gives an invalid key is an error", private=True)
    R.fn("child", "zip32::ExtendedSpendingKey::derive_child", lambda x, i: child_of(s, x, i), "an invalid child key is an error", private=True)
    R.fn("zip32", "keys::SpendingKey::from_zip32_seed", lambda *a: zip32_seed(s, *a), "derivation fails if any key on the path is invalid")
    # randomly generated spending keys are validated too
    p = "keys::SpendingKey::random"
    if R.has(p):
        v = R.sum(p).ret
        R.ob("sk-random", p, v.op == "agg" and rooted(fld(v, "0")), "a random spending key is drawn from the caller's random source", dag(v)[:300], val=v)


def rooted(v):
    return any(x.op == "rand" for x in subterms(v))


def leaves(t):
    if t.op == "case":
        for _, v in t.a[1]:
            yield from leaves(v)
    else:
        yield t


def under(r, x):
    return any(y is r for y in subterms(x))


def erase_err(t, r):
    """error values that are not the reader's own are identified (which error is reported is not part of the property)"""
    def f(x):
        if x.op == "agg" and x.a[1] == "Err" and not under(r, x):
            return err(I(0))
        return x
    return map_leaves(t, f)
