"""What builder::bundle does, per kind of bundle: the pieces of the bundle it returns, as terms."""
from .lib import *
import time
from oflow import concrete
from .c22 import imprecise
from .prim import Spec, AUTH, BIND, FP, FQ, EP, EPA, const, byte
from oflow.interp import guards_of
from oflow.ranges import gscruts

B = "builder::bundle"


class Scn:
    def under(self, t):
        """t in this scenario"""
        for a, l in self.asm:
            t = assume(t, a, l)
        return t


def syms(r, s):
    v = lambda n, t: mk("sym", n, t)
    return (v("rng", "impl RngCore"), v("anchor", "tree::Anchor"),
            v("spends", "std::vec::Vec<%s>" % s.t.path("SpendInfo")), v("outputs", "std::vec::Vec<%s>" % s.t.path("OutputInfo")),
            v("flags", s.t.path("Flags")))


def shape(r):
    """Scenarios in which a bundle is produced. Each has the fields of the bundle as terms over one index space."""
    if not r.has(B):
        raise Missing(B)
    s = Spec(r)
    rng, anchor, spends, outputs, flags = syms(r, s)
    ls, lo = length(spends), length(outputs)
    out = []
    N2 = HOOK_max(ls, lo, I(2))
    no_s, no_o = t_eq(ls, I(0)), t_eq(lo, I(0))
    T_ = lambda req: s.t.new("BundleType", variant="Transactional", flags=flags, bundle_required=req)
    off = s.S("Flags", spends_enabled=FALSE, outputs_enabled=TRUE)
    for name, bt, ass, n, fl in (
            ("required", T_(TRUE), (), N2, flags),
            ("spends requested", T_(FALSE), ((no_s, "0"),), N2, flags),
            ("only outputs requested", T_(FALSE), ((no_s, "1"), (no_o, "0")), N2, flags),
            ("coinbase", s.t.new("BundleType", variant="Coinbase"), ((no_s, "1"),), lo, off)):
        S_ = r.sum(B, values=[rng, anchor, bt, spends, outputs])
        c = Scn()
        c.name, c.n, c.flags, c.sum, c.s = name, n, fl, S_, s
        c.rng, c.anchor, c.spends, c.outputs = rng, anchor, spends, outputs
        c.ret = S_.ret
        c.asm = ass
        for a, l in ass:
            c.ret = assume(c.ret, a, l)
        c.bt = bt
        c.leaves = []
        c.other = []
        for g, l in guards_of(c.ret):
            if is_agg(l, None, "Ok"):
                for g2, l2 in guards_of(l.a[3]):
                    if is_agg(l2, None, "Some"):
                        c.leaves.append((g_and(g, g2), l2.a[3]))
                    else:
                        c.other.append(l2)
            else:
                c.other.append(l)
        out.extend(forms(c))
    return out


def forms(c):
    """one scenario per form of the returned bundle, under the conditions in which it has that form"""
    if not 2 <= len(c.leaves) <= 4:
        return [c]
    out = []
    lits = [own(g) for g, _ in c.leaves]
    for i, (g, l) in enumerate(c.leaves):
        flip = {(q, "1" if a == "0" else "0") for j, x in enumerate(lits) if j != i for q, a in x}
        d = Scn()
        d.__dict__.update(c.__dict__)
        d.name = "%s, form %d" % (c.name, i + 1)
        d.asm = tuple(c.asm) + tuple(x for x in lits[i] if x in flip)
        for a, b in d.asm:
            d.ret = assume(d.ret, a, b)
        d.leaves = [(d.under(g), d.under(l))]
        out.append(d)
    return out


def own(g):
    """what holds whenever g does"""
    return [(q, "1" if a == "0" else "0") for q in sorted(gscruts(asguard(g)), key=lambda x: x.id) if q.op in BOOL_OPS
            for a in ("0", "1") if guardbool(assume(g, q, a)) in (FALSE, BOT)]


def HOOK_max(*xs):
    from oflow.arith import t_max
    r = xs[0]
    for x in xs[1:]:
        r = t_max(r, x)
    return r


def pieces(r, c, oid):
    """Fills c with the parts of the one bundle it returns; False (with an obligation) if it has another shape."""
    okk = len(c.leaves) >= 1
    r.ob(oid + ".returns[%s]" % c.name, B, okk, "a bundle is returned when nothing is refused", "no path returns a bundle", val=c.ret)
    if not okk:
        return False
    if len(c.leaves) != 1:
        r.undecided(oid + ".one[%s]" % c.name, B, "the returned bundle has one form", "%d forms" % len(c.leaves))
        return False
    c.guard, tupv = c.leaves[0]
    bun, c.meta = fld(tupv, "0"), fld(tupv, "1")
    c.actions = fld(bun, "actions")
    c.bflags, c.vb, c.banchor = fld(bun, "flags"), fld(bun, "value_balance"), fld(bun, "anchor")
    auth = fld(bun, "authorization")
    c.circuits = fld(auth, "proof", "circuits")
    c.bsk = fld(auth, "sigs", "bsk")
    if c.actions.op != "map" or c.circuits.op != "map":
        r.undecided(oid + ".map[%s]" % c.name, B, "actions and witnesses are made element by element", show(c.actions, 3)[:200])
        return False
    r.ob(oid + ".paired[%s]" % c.name, B, c.actions.a[0] is c.circuits.a[0], "actions and witnesses come from the same list, in the same order",
         "%s vs %s" % (show(c.actions.a[0], 4), show(c.circuits.a[0], 4)), val=(c.actions.a[0], c.circuits.a[0]))
    c.b = c.actions.a[0]
    c.act, c.cir = c.actions.a[1], c.circuits.a[1]
    if c.actions.a[0] is not c.circuits.a[0]:
        return False
    c.As = c.Bs = None
    for p in (c.b.a if c.b.op == "zip" else (c.b,)):
        if p.op == "perm":
            for q in (p.a[0].a if p.a[0].op == "zip" else (p.a[0],)):
                h = head(q)
                if h is c.spends and c.As is None:
                    c.As = (p, q)
                if h is c.outputs and c.Bs is None:
                    c.Bs = (p, q)
        elif head(p) is c.spends and c.As is None:
            c.As = (p, p)
        elif head(p) is c.outputs and c.Bs is None:
            c.Bs = (p, p)
    if c.As is None or c.Bs is None:
        gone = r.pid == "C17" and missing(c)
        if gone:
            r.ob(oid + ".all[%s]" % c.name, B, False, "every requested spend and output is in an action", gone, val=c.b)
            return False
        r.undecided(oid + ".lists[%s]" % c.name, B, "actions pair an element of the padded spends with one of the padded outputs", show(c.b, 4)[:200])
        return False
    c.S, c.O = (mk("at", elem(q), p) if p is not q else elem(q) for p, q in (c.As, c.Bs))
    return True


def missing(c):
    """a requested item that is in no action, with the lists written out"""
    for ns, no in ((2, 3), (3, 1), (0, 3)):
        if any(q.op == "eq" and FALSE in q.a and mk("len", c.spends) in q.a and (a == "1") != (ns == 0) for q, a in c.asm):
            continue
        L = concrete.Lengths([0, 1, 2, 3], 0)
        for x, n, what in ((c.spends, ns, "spend"), (c.outputs, no, "output")):
            if x.op != "case":
                L.set(x, n)
        try:
            (b,), _ = concrete.passes(L, [mk("map", c.b, tup(*[elem(x) for x in (c.b.a if c.b.op == "zip" else (c.b,))]))], time.time() + 10)
        except (concrete.Unsupported, concrete.Dead, concrete.Budget, Limit, RecursionError):
            continue
        if b.op != "agg" or imprecise(b):
            continue
        for x, n, what in ((c.spends, ns, "spend"), (c.outputs, no, "output")):
            s = L.rep.get(x)
            for k in range(n if s is not None else 0):
                if not contains(b, lambda y: y is index(s, I(k)) or y.op not in ("index", "len") and s in y.a):
                    return "of %d spends and %d outputs requested, %s %d is in none of the %d actions" % (ns, no, what, k + 1, len(b.a) - 3)
    return None


def known(c, name):
    """The value given to the witness field `name`"""
    v = fld(c.cir, name)
    if v.op == "call" and v.a[0].endswith("Value::known") and len(v.a) == 2:
        return v.a[1]
    return mk("unknown", v)


def sums(t, b):
    """(positive, negative) bodies of the sums over b that make up t, or None if t has other parts"""
    pos, negs = [], []
    for x in (t.a if t.op == "add" else (t,)):
        y, l = (x.a[0], negs) if x.op == "neg" else (x, pos)
        if y.op != "bigsum" or y.a[0] is not b:
            return None
        l.append(y.a[1])
    return pos, negs


def head(q):
    """the sequence a padded or shortened one starts with"""
    while q.op in ("take", "concat", "slice"):
        q = q.a[0]
    return q
