"""C24: equality, ordering, selection and copying of the domain types look at every component."""
import itertools, re
from .prim import *
from oflow.terms import map_leaves

PRED = {"PartialEq": "eq", "ConstantTimeEq": "ct_eq", "PartialOrd": "partial_cmp", "Ord": "cmp",
        "ConditionallySelectable": "conditional_select", "Clone": "clone"}


def base_(ty):
    return re.sub(r"<.*", "", ty)


class Ident:
    """What makes two values of a type the same value."""

    def __init__(self, R, s):
        self.R, self.s, self.adts = R, s, R.P.adts
        self.vk = s  # spec

    def leaves(self, ty, a):
        """the component values that decide identity, for struct types"""
        k = base_(ty)
        if k == "note::Note":
            return [self.s.x_of(some_of(self.s.cm_of(a)))]      # notes are canonically defined by their commitments
        ad = self.adts.get(k)
        if k.endswith("redpallas::VerificationKey") and ad is not None:
            T = re.search(r"<(.*)>", ty)
            return [self.s.vk_bytes(fld(a, "0"), T.group(1) if T else AUTH)]
        if ad is None or not ad.get("local") or ad["enum"]:
            return [a]
        return [x for n, t, *_ in ad["vs"][0]["f"] for x in self.leaves(t, fld(a, n))]

    def same(self, ty, a, b):
        ad = self.adts.get(base_(ty))
        if ad is not None and ad.get("local") and ad["enum"]:
            def row(v):
                pay = TRUE
                for n, t, *_ in v["f"]:
                    pay = b_and(pay, self.same(t, fld(as_(a, v["n"]), n), fld(as_(b, v["n"]), n)))
                return case(b, [(w["n"], pay if w is v else FALSE) for w in ad["vs"]])
            return case(a, [(v["n"], row(v)) for v in ad["vs"]])
        r = TRUE
        for x, y in zip(self.leaves(ty, a), self.leaves(ty, b)):
            r = b_and(r, t_eq(x, y))
        return r

    def select(self, ty, a, b, c):
        ad = self.adts.get(base_(ty))
        if ad is None or not ad.get("local") or ad["enum"]:
            return iff(c, b, a)
        v = ad["vs"][0]
        return agg(base_(ty), v["n"], [f[0] for f in v["f"]], *[self.select(f[1], fld(a, f[0]), fld(b, f[0]), c) for f in v["f"]])


def check(R):
    s = Spec(R)
    idn = Ident(R, s)
    for it in R.P.items:
        m = re.match(r"^<(.*) as (?:\w+::)*(\w+)(?:<.*>)?>::(\w+)$", it["path"])
        if not m or PRED.get(m.group(2)) != m.group(3) or not R.has(it["path"]):
            continue
        ty, tr, name = m.groups()
        k = base_(ty)
        ad = R.P.adts.get(k)
        if ad is None or not ad.get("local") or k.startswith(("circuit", "constants", "<")) or "testing" in k:
            continue
        p, oid = it["path"], "%s:%s" % (name, k)
        if name in ("eq", "ct_eq"):
            a, b = R.sum(p).args
            R.eq(oid, p, R.sum(p).ret, idn.same(ty, a, b), "equal exactly when every identifying component is equal")
        elif name in ("cmp", "partial_cmp"):
            order(R, idn, p, oid, ty, name)
        elif name == "conditional_select":
            R.fn(oid, p, lambda a, b, c: idn.select(ty, a, b, c), "the first for 0 and the second for 1, in every component")
        elif name == "clone":
            R.fn(oid, p, lambda a: a, "a clone is its original")


def order(R, idn, p, oid, ty, name):
    """lexicographic over the identifying components, in any order: total, antisymmetric and Equal only for equal values"""
    rule = "a total order in which only equal values are Equal"
    sm = R.sum(p)
    a, b = sm.args
    xs = list(zip(idn.leaves(ty, a), idn.leaves(ty, b)))
    O = lambda n: agg("std::cmp::Ordering", n, ())
    wrap = (lambda t: map_leaves(t, some)) if name == "partial_cmp" else (lambda t: t)

    def lex(ps):
        (x, y), rest = ps[0], ps[1:]
        c = mk("cmp", x, y)
        return case(c, [("Equal", lex(rest)), ("Greater", O("Greater")), ("Less", O("Less"))]) if rest else c
    forms = [lex(list(q)) for q in itertools.permutations(xs)] if len(xs) <= 4 else [lex(xs)]
    if name == "partial_cmp":
        forms = [some(f) for f in forms]
    for f in forms:
        try:
            if Eq(R.P.adts, seconds=8).eq(sm.ret, f) is None:
                return R.ob(oid, p, True, rule)
        except Budget:
            pass
    e = equal_of(sm.ret)
    if e is not None:
        d = R.eq(oid, p, e, idn.same(ty, a, b), "two values compare as Equal only when they are equal")
        if d is False or d is None:
            return
        return R.undecided(oid + ".order", p, rule, "Equal only for equal values; not a lexicographic order of the components")
    why = imprecise(sm.ret)
    seen = set(subterms(sm.ret))
    lost = [show(x, 4) for x, y in xs if x not in seen or y not in seen]
    if lost and not why:
        return R.ob(oid, p, False, rule, "does not look at " + ", ".join(lost))
    R.undecided(oid, p, rule, "not a lexicographic order of the components" + (" (%s)" % why if why else ""))


def equal_of(t):
    """the condition under which an ordering is Equal"""
    if t.op == "agg":
        if t.a[1] == "Some":
            return equal_of(fld(t, "0"))
        return TRUE if t.a[1] == "Equal" else FALSE
    if t.op == "cmp":
        return t_eq(t.a[0], t.a[1])
    if t.op == "case":
        kids = {n: equal_of(v) for n, v in t.a[1]}
        if None in kids.values():
            return None
        if t.a[0].op == "cmp":
            if kids.get("Greater") is not kids.get("Less"):
                return None
            return iff(t_eq(*t.a[0].a), kids["Equal"], kids["Less"])
        return case(t.a[0], list(kids.items()))
    return None
