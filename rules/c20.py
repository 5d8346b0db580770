"""C20: decryption and recovery return only validated results, with the right position and key."""
from .prim import *

B = "bundle::Bundle::"


def is_some(t):
    return map_leaves(t, lambda l: FALSE if l is NONE else TRUE)


def value(t):
    """the one value the option t has when it has one"""
    vs = {l for _, l in guards_of(t) if l is not NONE}
    assert len(vs) == 1
    return fld(vs.pop(), "0")


def check(r):
    s = Spec(r)
    ivk = lambda k: fld(k, "ivk", "0", "0")
    for oid, f, how in (("decrypt", "decrypt_output_with_key", lambda a, k: s.decrypt(a, ivk(k))),
                        ("recover", "recover_output_with_ovk", lambda a, k: s.recover(a, fld(k, "0")))):
        r.fn(oid, B + f, lambda me, i, k: iff(t_lt(i, length(fld(me, "actions"))), how(index(fld(me, "actions"), i), k), NONE),
             "the action at the position asked for, or nothing; a result only from the full procedure applied to that action's own data")
    for oid, f, how in (("decrypt.all", "decrypt_outputs_with_keys", lambda a, k: s.decrypt(a, ivk(k))),
                        ("recover.all", "recover_outputs_with_ovks", lambda a, k: s.recover(a, fld(k, "0")))):
        x = r.sum(B + f)
        me, keys = x.args
        acts = fld(me, "actions")
        d = how(elem(acts), elem(keys))
        c, v = is_some(d), value(d)
        first = lambda y: Interp(r.P).mkfirst(keys, c, y)
        want = mk("filt", acts, mk("any", keys, c), tup(idx(acts), first(elem(keys)), first(fld(v, "0")), first(fld(v, "1")), first(fld(v, "2"))))
        r.eq(oid, B + f, x.ret, want, "every action is tried with every key; each success is returned once, in order, with its action's position and the first key that opens it")
