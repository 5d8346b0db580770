"""Obligations over function summaries, and the comparison of normal forms."""
import re
from oflow.terms import *
from oflow.arith import add, neg, bigsum, t_add, t_sub, t_eq, t_lt, b_not, b_and, b_or, ZERO
from oflow.seqs import arr, base, elem, idx, smap, length, concat, take, slc, index, segs, rangeseq, zipseq, LEN, t_pre, t_skip, t_next
from oflow.interp import Interp, guards_of, absorb, conv_g
from oflow.mir import Program
from oflow.equal import Eq, Budget, assume, resolved
from oflow.concrete import same
from oflow.model import sweep, differ, witness

# Operators by which the analysis says it has lost precision.
IMPRECISE = {"unk", "acc", "foldsys", "last", "seqcase", "filtseq", "flatseq", "uninit"}


class Missing(Exception):
    pass


class R:
    """Everything one property check needs: program, obligations, evidence."""

    def __init__(self, prog, pid):
        self.P = prog
        self.pid = pid
        self.obl = []          # dicts
        self.viol = []
        self.und = []
        self.memo = {}
        self.analysed = {}
        self.steps = 0

    # ------------------------------------------------------------------ summaries
    def has(self, path):
        return bool(self.P.find(path)) and self.P.bodies.get(self.P.find(path)[0]["item"]) is not None

    def moved(self, path):
        """another item with this method name exists"""
        n = re.sub(r"<.*>", "", path).split("::")[-1]
        return any(it["path"].split("::")[-1] == n and it["path"] != path for it in self.P.items)

    def first(self, *paths):
        for p in paths:
            if self.has(p):
                return p
        return None

    def span(self, path):
        its = self.P.find(path)
        return its[0].get("span", "") if its else ""

    def sum(self, path, values=None, opaque=(), names=None, keep=False):
        k = (path, tuple(values) if values else None, tuple(opaque), tuple(names) if names else None)
        if k in self.memo:
            return self.memo[k]
        if not self.has(path):
            raise Missing(path)
        I_ = Interp(self.P)
        I_.opaque = set(opaque)
        s = I_.summary(path, names=names, values=values)
        s.interp = I_
        self.steps += I_.steps
        for b in I_.visited:
            p = self.P.bodies[b].path
            self.analysed[p] = self.analysed.get(p, 0) + 1
        self.analysed.setdefault(path, 1)
        self.memo[k] = s
        return s

    def app(self, path, *values):
        """The value the function at `path` returns for these argument values."""
        return self.sum(path, values=list(values)).ret

    def arg(self, path, i):
        return self.sum(path).args[i]

    # ------------------------------------------------------------------ obligations
    def ob(self, oid, where, ok, rule, detail="", val=()):
        """val: the value(s) judged; when the analysis lost precision on them, a failure is not a verdict"""
        if not ok:
            for v in (val if isinstance(val, (list, tuple)) else (val,)):
                why = imprecise(v)
                if why:
                    self.undecided(oid, where, rule, "not decided (%s)" % why)
                    return None
        st = "discharged" if ok else "violated"
        self.obl.append({"id": oid, "where": where, "at": self.span(where), "rule": rule, "status": st})
        if not ok:
            self.viol.append({"id": oid, "function": where, "at": self.span(where), "rule": rule, "detail": detail})
        return ok

    def undecided(self, oid, where, rule, detail):
        self.obl.append({"id": oid, "where": where, "at": self.span(where), "rule": rule, "status": "undecided"})
        self.und.append({"id": oid, "function": where, "rule": rule, "detail": detail})

    def eq(self, oid, where, actual, expected, rule, given=()):
        """actual and expected are the same value for every input."""
        big = None
        try:
            d = Eq(self.P.adts, seconds=8).eq(actual, expected)
        except Budget:
            d = big = True
        if d is None:
            return self.ob(oid, where, True, rule)
        why = imprecise(actual)
        if big and not why:
            d = witness(self.P.adts, actual, expected)
            if d is not None:
                return self.ob(oid, where, False, rule, str(d))
            d = True
        if not why and not big and bytewise(self.P.adts, actual, expected):
            return self.ob(oid, where, True, rule)
        if not why:
            try:
                x, y = sweep(self.P.adts, actual, expected)
                if Eq(self.P.adts, seconds=20).eq(x, y) is None:
                    return self.ob(oid, where, True, rule)
            except Budget:
                pass
        if big:
            self.undecided(oid, where, rule, "the two forms are too large to compare")
            return None
        if not why and not differ(actual, expected, d.env):
            self.undecided(oid, where, rule, "no valuation shows the difference " + str(d)[:300])
            return None
        eqv = None if why else same(self.P.adts, actual, expected, given=given)
        if eqv == "always":
            return self.ob(oid, where, True, rule)
        if eqv:
            k, cut = scaled(actual, expected)
            if cut is not None:
                try:
                    e = Eq(self.P.adts, seconds=8).eq(cut, expected)
                    if e is not None and differ(cut, expected, e.env) and same(self.P.adts, cut, expected, given=given) is False:
                        return self.ob(oid, where, False, rule, "with lists longer than the fixed bound %d: %s" % (k, d))
                except (Budget, Limit):
                    pass
            self.undecided(oid, where, rule, "no choice of lengths shows the difference " + str(d)[:300])
            return None
        d = str(d)
        if why:
            miss = support_gap(actual, expected)
            if not miss:
                self.undecided(oid, where, rule, "not decided (%s); it depends on everything it should" % why)
                return None
            return self.ob(oid, where, False, rule, "lost dependence on %s" % ", ".join(miss[:4]))
        return self.ob(oid, where, False, rule, d)

    def fn(self, oid, path, expected, rule, values=None, private=False, given=None):
        """The function at path returns `expected` (a term, or a function of its argument terms).
        given: conditions on the arguments without which nothing is claimed."""
        if not self.has(path):
            if private:
                self.obl.append({"id": oid, "where": path, "at": "", "rule": rule, "status": "not present; covered through its callers"})
                return None
            raise Missing(path)
        s = self.sum(path, values=values)
        e = expected(*s.args) if callable(expected) else expected
        got = s.ret
        if given is not None:
            given = given(*s.args)
            g = dict(given)
            got, e = resolved(got, g), resolved(e, g)
        return self.eq(oid, path, got, e, rule, given or ())


def bounds(t):
    """the terms that compare a position in, or the length of, a list of no known length with a constant, or cut one there: term -> constant"""
    out = {}
    for x in subterms(t):
        k = None
        if x.op == "take" and x.a[1].op == "int" or x.op == "slice" and any(y.op == "int" and y.a[0] > 3 for y in x.a[1:]):
            if length(x.a[0]).op == "len" or length(x.a[0]).op in ("min", "max", "add"):
                k = [y.a[0] for y in x.a[1:] if y.op == "int" and y.a[0] > 3]
        elif x.op in ("lt", "min", "max", "eq") and any(isinstance(y, T) and y.op in ("len", "idx") for y in x.a):
            k = [y.a[0] for y in x.a if isinstance(y, T) and y.op == "int" and y.a[0] > 3]
            if any(y.op == "idx" and length(y.a[0]).op == "int" for y in x.a if isinstance(y, T)):
                k = None
        for v in k or ():
            out.setdefault(x, set()).add(v)
    return out


def scaled(actual, expected):
    """(k, actual with k scaled down to 1) when the only bound on positions in lists that the expected term does not have is the one constant k.
    A form that treats the elements from position k on like the others, treats those from position 1 on like the others."""
    want = set().union(*bounds(expected).values(), set())
    t = actual
    ks = set().union(*bounds(t).values(), set()) - want
    if len(ks) != 1:
        return None, None
    k = next(iter(ks))
    if k >= 1 << 24:
        return None, None
    for _ in range(4):
        m = {x: rebuild(x.op, [I(1) if isinstance(y, T) and y.op == "int" and y.a[0] == k else y for y in x.a]) for x, v in bounds(t).items() if k in v}
        if not m:
            break
        t = subst(t, m)
    if any(k in v for v in bounds(t).values()) or any(x.op == "int" and x.a[0] in (k, k - 1, k + 1) for x in subterms(t) if x not in set(subterms(expected))):
        return None, None
    return k, t


def bytewise(adts, a, b):
    """a and b agree for each value of the one byte on which both are decided"""
    from oflow.ranges import typeof
    hit = set()
    for x in list(subterms(a)) + list(subterms(b)):
        if x.op in ("bitset", "eq", "lt", "bin", "bit", "cast"):
            hit.update(y for y in x.a if isinstance(y, T) and y.op in ("sym", "fld", "index") and typeof(y) == "u8")
    if len(hit) != 1 or len(set(subterms(a)) | set(subterms(b))) > 400:
        return False
    x, = hit
    try:
        return all(Eq(adts, 300).eq(subst(a, {x: I(v)}), subst(b, {x: I(v)})) is None for v in range(256))
    except Budget:
        return False




def imprecise(t):
    for x in subterms(t):
        if x.op in IMPRECISE:
            return "%s %s" % (x.op, x.a[0] if x.a and isinstance(x.a[0], str) else "")
        if x.op in ("call", "mut") and isinstance(x.a[0], str):
            n = x.a[0]
            if re.match(r"^(std|core|alloc|nonempty|either|itertools|arrayvec)::", n) or re.match(
                    r"^(Iterator|IntoIterator|DoubleEndedIterator|ExactSizeIterator|Extend|FromIterator|Borrow|AsRef|ToOwned|Ord|PartialOrd|Index|Default)::", n):
                return "call " + n
    return None


def leafset(t):
    out = set()
    for x in subterms(t):
        if x.op == "sym":
            out.add("parameter " + x.a[0])
        elif x.op == "fld":
            pass
        elif x.op == "str":
            out.add("constant '%s'" % x.a[0])
        elif x.op == "call":
            out.add("call " + x.a[0])
    return out


def support_gap(actual, expected):
    if any(x.op == "mut" and imprecise(mk("call", x.a[0])) for x in subterms(actual) if x.op == "mut" and isinstance(x.a[0], str)):
        return []     # what is written later through the result of an unknown call on a place is not tracked
    if any(x.op == "unk" for x in subterms(actual)):
        return []     # what an unresolved value depends on is not known
    return sorted(leafset(expected) - leafset(actual))


# ---------------------------------------------------------------------- term construction

def call(n, *a):
    return mk("call", n, *a)


def fld(t, *names):
    from oflow.interp import _fld
    for n in names:
        t = _fld(t, n)
    return t


def as_(t, v):
    from oflow.interp import _as
    return _as(t, v)


def some_of(t):
    return fld(as_(t, "Some"), "0")


def ok_of(t):
    return fld(as_(t, "Ok"), "0")


def opt(t, f):
    """Option-map"""
    return case(t, [("None", NONE), ("Some", f(some_of(t)))])


def opt_else(t, none, f):
    return case(t, [("None", none), ("Some", f(some_of(t)))])


def iff(c, a, b):
    """a if the boolean term c holds, else b"""
    return case(c, [("1", a), ("0", b)]) if c.op not in ("int",) else (a if c is TRUE else b)


class Types:
    def __init__(self, prog):
        self.p = prog
        self.short = {}
        for k, a in prog.adts.items():
            self.short.setdefault(k.split("::")[-1], []).append(k)

    def path(self, name):
        if name in self.p.adts:
            return name
        c = self.short.get(name, [])
        loc = [k for k in c if self.p.adts[k].get("local")]
        if len(loc) == 1:
            return loc[0]
        if not loc and len(c) == 1:
            return c[0]
        raise Missing("type " + name + " " + str(c))

    def new(self, name, *vals, variant=None, **kw):
        k = self.path(name)
        a = self.p.adts[k]
        vs = a["vs"]
        v = vs[0] if variant is None else next((x for x in vs if x["n"] == variant), None)
        if v is None:
            raise Missing("variant %s::%s" % (name, variant))
        names = [f[0] for f in v["f"]]
        if kw:
            if set(kw) != set(names):
                raise Missing("fields of %s: %s" % (name, names))
            vals = [kw[n] for n in names]
        if len(vals) != len(names):
            raise Missing("fields of %s" % name)
        # the engine's own naming of a struct's only variant
        return agg(k, v["n"], names, *vals)

    def with_(self, name, src, **kw):
        """struct copy with some fields replaced"""
        k = self.path(name)
        v = self.p.adts[k]["vs"][0]
        names = [f[0] for f in v["f"]]
        return agg(k, v["n"], names, *[kw.get(n, fld(src, n)) for n in names])
