"""C21: address ownership: the regenerated address must equal the whole given address; both scopes are tried with their own keys."""
from .prim import *


def check(R):
    s = Spec(R)
    t = s.t

    def addr_eq(a, b):
        return b_and(t_eq(fld(a, "d", "0"), fld(b, "d", "0")), t_eq(fld(a, "pk_d", "0", "0"), fld(b, "pk_d", "0", "0")))

    def index_of(dk, ivk, a):
        j = s.div_index(dk, fld(a, "d", "0"))
        regen = s.addr(s.diversifier(dk, j), ivk)
        return addr_eq(regen, a), t.new("DiversifierIndex", j)

    def owns(i, a):
        c, j = index_of(fld(i, "dk", "0"), fld(i, "ivk", "0", "0"), a)
        return iff_(c, some(j), NONE)

    R.fn("index", "keys::IncomingViewingKey::diversifier_index", owns,
         "an index is reported exactly when the address regenerated at it equals the given one in both components")

    def scope(f, a):
        out = NONE
        for sc in ("Internal", "External"):
            S_ = s.scope(sc)
            c, _ = index_of(s.dk(f, S_), s.ivk_scalar(f, s.rivk(f, S_)), a)
            out = iff_(c, some(S_), out)
        return out
    R.fn("scope", "keys::FullViewingKey::scope_for_address", scope,
         "the scope reported is one whose own incoming key owns the address; both are tried")
    R.fn("dk-index", "keys::DiversifierKey::diversifier_index", lambda k, d: t.new("DiversifierIndex", s.div_index(fld(k, "0"), fld(d, "0"))),
         "the index of a diversifier is its FF1 decryption")
    R.fn("dk-get", "keys::DiversifierKey::get", lambda k, j: s.S("Diversifier", s.diversifier(fld(k, "0"), jb(R, j))), "and its encryption the other way", private=True)
    R.fn("addr-eq", "<address::Address as std::cmp::PartialEq>::eq", addr_eq, "addresses are equal when both components are")
    R.fn("div-eq", "<keys::Diversifier as std::cmp::PartialEq>::eq", lambda a, b: t_eq(fld(a, "0"), fld(b, "0")), "diversifiers are compared in full", private=True)
    R.fn("pkd-eq", "<keys::DiversifiedTransmissionKey as std::cmp::PartialEq>::eq", lambda a, b: t_eq(fld(a, "0", "0"), fld(b, "0", "0")),
         "transmission keys are compared in full", private=True)
    R.fn("addr-div", "address::Address::diversifier", lambda a: fld(a, "d"), "accessor")


def jb(R, j):
    from .c13 import jbytes
    return jbytes(R, j)


def iff_(c, a, b):
    from oflow.terms import map_leaves
    return map_leaves(c, lambda l: a if l is TRUE else b if l is FALSE else iff(l, a, b))
