"""Hash-consed value terms and canonical decision trees.

A term is an abstract value computed by the value-flow analysis: a constant, a parameter symbol, a
projection, an aggregate, the result of a call whose body is not analysed, or a `case` node that
selects between terms by the variant (or truth value) of another term. Terms are interned, so equal
terms are the same object. `case` nodes are kept as ordered, reduced multi-terminal decision trees
(the order is the interning order of the scrutinee), so `if`, `match`, early return, `?` and the
equivalent combinators give the same term.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "id", "size", "flags", "_h")

    def __repr__(self):
        return show(self)


_tab = {}
_n = 0


class Limit(Exception):
    pass


def mk(op, *a):
    global _n
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n += 1
        t.id = _n
        t.size = 1 + sum(x.size for x in a if isinstance(x, T))
        t.flags = None
        _tab[k] = t
    return t


def I(n):
    return mk("int", int(n))


TRUE = I(1)
FALSE = I(0)
BOT = mk("bot")
UNIT = mk("agg", "tuple", "", ())


def sym(name, ty=""):
    return mk("sym", name, ty)


def unk(why):
    return mk("unk", why)


def S(x):
    return mk("str", x)


def agg(kind, variant, names, *vals):
    if any(v is BOT for v in vals):
        return BOT
    return mk("agg", kind, variant, tuple(names), *vals)


def tup(*vals):
    return agg("tuple", "", tuple(str(i) for i in range(len(vals))), *vals)


OPTION = "std::option::Option"
RESULT = "std::result::Result"


def some(x):
    return agg(OPTION, "Some", ("0",), x)


NONE = agg(OPTION, "None", ())


def ok(x):
    return agg(RESULT, "Ok", ("0",), x)


def err(x):
    return agg(RESULT, "Err", ("0",), x)


def is_agg(t, kind=None, variant=None):
    return t.op == "agg" and (kind is None or t.a[0] == kind) and (variant is None or t.a[1] == variant)


def agg_vals(t):
    return t.a[3:]


def agg_get(t, name):
    names = t.a[2]
    for i, n in enumerate(names):
        if n == name:
            return t.a[3 + i]
    return None


def agg_set(t, name, v):
    names = t.a[2]
    vals = list(t.a[3:])
    vals[names.index(name)] = v
    return agg(t.a[0], t.a[1], names, *vals)


# ---------------------------------------------------------------- decision trees

def arms_of(t):
    return t.a[1]


def top(t):
    return t.a[0] if t.op == "case" else None


def cof(t, s, label):
    """Cofactor of t for scrutinee s having the given label."""
    if t.op == "case" and t.a[0] is s:
        for l, v in t.a[1]:
            if l == label:
                return v
        return BOT
    return t


_mkmemo = {}


def case(s, arms):
    """arms: iterable of (label, term). Missing labels are unreachable."""
    arms = tuple(sorted(((l, v) for l, v in arms), key=lambda x: x[0]))
    if s.op == "case":
        # decide on the leaves of the scrutinee
        return map_leaves(s, lambda leaf: case(leaf, arms))
    if s.op == "agg":
        for l, v in arms:
            if l == s.a[1]:
                return v
        return BOT
    if s.op == "int":
        for l, v in arms:
            if l == str(s.a[0]):
                return v
        return BOT
    if s is BOT:
        return BOT
    k = (s, arms)
    r = _mkmemo.get(k)
    if r is None:
        r = _case(s, arms)
        _mkmemo[k] = r
    return r


def _case(s, arms):
    m = None
    for _, v in arms:
        tv = top(v)
        if tv is not None and (m is None or tv.id < m.id):
            m = tv
    if m is not None and m is not s and m.id < s.id:
        labels = set()
        for _, v in arms:
            if top(v) is m:
                labels.update(l for l, _ in v.a[1])
        return _build(m, [(l, case(s, [(l2, cof(v, m, l)) for l2, v in arms])) for l in labels])
    arms = [(l, cofd(v, s, l)) for l, v in arms]
    return _build(s, arms)


_has = {}


def inner_scrutinees(v):
    """Scrutinees selected on inside v (through constructors and selections)."""
    r = _has.get(v)
    if r is None:
        if v.op == "case":
            x = {v.a[0]}
            for _, w in v.a[1]:
                x |= inner_scrutinees(w)
            r = frozenset(x)
        elif v.op == "agg" and not v.a[0].startswith("closure"):
            x = set()
            for w in v.a[3:]:
                x |= inner_scrutinees(w)
            r = frozenset(x)
        else:
            r = frozenset()
        _has[v] = r
    return r


_cofd = {}


def cofd(v, s, l):
    """v under the assumption that s has label l, also inside constructors."""
    if s not in inner_scrutinees(v):
        return v
    k = (v, s, l)
    r = _cofd.get(k)
    if r is None:
        if v.op == "case":
            if v.a[0] is s:
                r = cofd(cof(v, s, l), s, l)
            else:
                r = case(v.a[0], [(m, cofd(w, s, l)) for m, w in v.a[1]])
        else:
            r = agg(v.a[0], v.a[1], v.a[2], *[cofd(w, s, l) for w in v.a[3:]])
        _cofd[k] = r
    return r


HOOK = {}


def _build(s, arms, seg=True):
    live = sorted([(l, v) for l, v in arms if v is not BOT], key=lambda x: x[0])
    if not live:
        return BOT
    v0 = live[0][1]
    if all(v is v0 for _, v in live):
        return v0
    if seg and s.op == "lt" and s.a[1].op == "int":
        r = segments(s, live)
        if r is not None:
            return r
    # identity on booleans
    if len(live) == 2 and live[0] == ("0", FALSE) and live[1] == ("1", TRUE) and is_boolterm(s):
        return s
    # push selection into equal constructors
    if v0.op == "agg" and all(v.op == "agg" and v.a[:3] == v0.a[:3] for _, v in live):
        vals = [case(s, [(l, v.a[3 + i]) for l, v in live]) for i in range(len(v0.a) - 3)]
        return agg(v0.a[0], v0.a[1], v0.a[2], *vals)
    if v0.op == "call" and all(v.op == "call" and v.a[0] == v0.a[0] and len(v.a) == len(v0.a) for _, v in live):
        return mk("call", v0.a[0], *[case(s, [(l, v.a[i]) for l, v in live]) for i in range(1, len(v0.a))])
    if s.op == "lt" and len(live) == 2 and not (s.a[1].op == "int" and abs(s.a[1].a[0]) >= 1 << 62):
        x, y = s.a
        if live[0][1] is x and live[1][1] is y:
            return HOOK["max"](x, y)
        if live[0][1] is y and live[1][1] is x:
            return HOOK["min"](x, y)
    return mk("case", s, tuple(live))


def segments(s, live):
    """A selection on comparisons of one integer with constants, by the segments of the line it distinguishes.
    None when no comparison can be dropped."""
    e = s.a[0]
    cuts = {s.a[1].a[0]: s}
    for _, v in live:
        for q in inner_scrutinees(v):
            if q.op == "lt" and q.a[0] is e and q.a[1].op == "int":
                cuts[q.a[1].a[0]] = q
    if len(cuts) < 2:
        return None
    ks = sorted(cuts)
    vals = []
    for i in range(len(ks) + 1):
        # the segment below ks[i] and not below ks[i-1]
        lab = {k: ("1" if j >= i else "0") for j, k in enumerate(ks)}
        v = next((w for l, w in live if l == lab[s.a[1].a[0]]), None)
        if v is None:
            v = BOT
        for k in ks:
            if v is not BOT:
                v = cofd(v, cuts[k], lab[k])
        vals.append(v)
    keep = []
    cur = vals[0]
    out = [cur]
    for i, k in enumerate(ks):
        w = vals[i + 1]
        if w is cur or w is BOT:
            continue
        if cur is BOT:
            out[-1] = cur = w
            continue
        keep.append(k)
        out.append(w)
        cur = w
    if not keep:
        return out[0]
    i = keep.index(s.a[1].a[0]) if s.a[1].a[0] in keep else -1
    if i < 0:
        return seg_tree(keep, out, cuts)
    return _build(s, [("0", seg_tree(keep[i + 1:], out[i + 1:], cuts)), ("1", seg_tree(keep[:i], out[:i + 1], cuts))], False)


def seg_tree(ks, vals, cuts):
    """The comparison with the smallest id is tested first."""
    if not ks:
        return vals[0]
    i = min(range(len(ks)), key=lambda j: cuts[ks[j]].id)
    return case(cuts[ks[i]], [("0", seg_tree(ks[i + 1:], vals[i + 1:], cuts)), ("1", seg_tree(ks[:i], vals[:i + 1], cuts))])


def is_boolterm(s):
    return s.op in BOOL_OPS


BOOL_OPS = {"eq", "lt", "any", "hasnext", "isvar", "ovf", "fits", "bitset"}


def case_labels(t):
    return [l for l, _ in t.a[1]]


def map_leaves(t, f, memo=None):
    if t.op != "case":
        return BOT if t is BOT else f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = case(t.a[0], [(l, map_leaves(v, f, memo)) for l, v in t.a[1]])
        memo[t] = r
    return r


def nleaves(t, lim=10000):
    if t.op != "case":
        return 1
    seen = set()
    st = [t]
    n = 0
    while st:
        x = st.pop()
        if x.op == "case":
            for _, v in x.a[1]:
                st.append(v)
        else:
            n += 1
            if n > lim:
                return n
    return n


def apply(f, args, limit=64):
    """f applied pointwise to decision trees; falls back to None when too large."""
    prod = 1
    for a in args:
        if a.op == "case":
            prod *= nleaves(a, limit)
            if prod > limit:
                return None
    memo = {}

    def go(xs):
        for x in xs:
            if x is BOT:
                return BOT
        m = None
        for x in xs:
            tx = top(x)
            if tx is not None and (m is None or tx.id < m.id):
                m = tx
        if m is None:
            return f(*xs)
        r = memo.get(xs)
        if r is None:
            labels = set()
            first = True
            for x in xs:
                if top(x) is m:
                    ls = set(l for l, _ in x.a[1])
                    labels |= ls
            r = case(m, [(l, go(tuple(cof(x, m, l) for x in xs))) for l in labels])
            memo[xs] = r
        return r

    return go(tuple(args))


def asguard(t):
    """A boolean term as a tree with TRUE/FALSE leaves."""
    def leaf(x):
        if x is TRUE or x is FALSE:
            return x
        return mk("case", x, (("0", FALSE), ("1", TRUE)))
    if t.op == "case":
        memo = {}

        def go(t):
            if t.op != "case":
                return BOT if t is BOT else leaf(t)
            r = memo.get(t)
            if r is None:
                r = rawcase(t.a[0], [(l, go(v)) for l, v in t.a[1]])
                memo[t] = r
            return r
        return go(t)
    return leaf(t)


_rawmemo = {}


def rawcase(s, arms):
    """case() for guard trees: never collapses to the scrutinee itself."""
    arms = tuple(sorted(arms, key=lambda x: x[0]))
    k = (s, arms)
    r = _rawmemo.get(k)
    if r is not None:
        return r
    m = None
    for _, v in arms:
        tv = top(v)
        if tv is not None and (m is None or tv.id < m.id):
            m = tv
    if m is not None and m is not s and m.id < s.id:
        labels = set()
        for _, v in arms:
            if top(v) is m:
                labels.update(l for l, _ in v.a[1])
        r = _rawbuild(m, [(l, rawcase(s, [(l2, cof(v, m, l)) for l2, v in arms])) for l in labels])
    else:
        if any(top(v) is s for _, v in arms):
            arms = [(l, cof(v, s, l)) for l, v in arms]
        r = _rawbuild(s, arms)
    _rawmemo[k] = r
    return r


def _rawbuild(s, arms):
    live = sorted([(l, v) for l, v in arms if v is not BOT], key=lambda x: x[0])
    if not live:
        return BOT
    v0 = live[0][1]
    if all(v is v0 for _, v in live):
        return v0
    return mk("case", s, tuple(live))


_gm = {}


def g_and(a, b):
    if a is FALSE or b is FALSE or a is BOT or b is BOT:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a.id > b.id:
        a, b = b, a
    k = ("&", a, b)
    r = _gm.get(k)
    if r is None:
        r = _gapply(g_and, a, b)
        _gm[k] = r
    return r


def g_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is BOT or a is b:
        return b
    if b is FALSE or b is BOT:
        return a
    if a.id > b.id:
        a, b = b, a
    k = ("|", a, b)
    r = _gm.get(k)
    if r is None:
        r = _gapply(g_or, a, b)
        _gm[k] = r
    return r


def _gapply(f, a, b):
    m = top(a)
    tb = top(b)
    if m is None or (tb is not None and tb.id < m.id):
        m = tb
    labels = set()
    for x in (a, b):
        if top(x) is m:
            labels.update(l for l, _ in x.a[1])
    return rawcase(m, [(l, f(cof(a, m, l), cof(b, m, l))) for l in labels])


def g_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a is BOT:
        return BOT
    k = ("!", a)
    r = _gm.get(k)
    if r is None:
        r = rawcase(a.a[0], [(l, g_not(v)) for l, v in a.a[1]])
        _gm[k] = r
    return r


_itm = {}


def ite(g, a, b):
    """Value a where guard g holds, else b (BOT = unreachable)."""
    if g is TRUE:
        return a
    if g is FALSE or g is BOT:
        return b
    if a is b:
        return a
    k = (g, a, b)
    r = _itm.get(k)
    if r is None:
        s = g.a[0]
        r = case_force(s, [(l, ite(v, cofx(a, s, l), cofx(b, s, l))) for l, v in g.a[1]])
        _itm[k] = r
    return r


_muxm = {}


def mux(parts):
    """The value selected by mutually exclusive guards; undefined where no guard holds."""
    parts = [(g, v) for g, v in parts if g is not FALSE and g is not BOT]
    if not parts:
        return BOT
    v0 = parts[0][1]
    if parts[0][0] is TRUE or all(v is v0 for _, v in parts):
        return v0
    for g, v in parts:
        if g is TRUE:
            return v
    k = tuple(parts)
    r = _muxm.get(k)
    if r is None:
        s = None
        for g, _ in parts:
            t = g.a[0]
            if s is None or t.id < s.id:
                s = t
        labels = set()
        for g, _ in parts:
            if g.a[0] is s:
                labels.update(l for l, _ in g.a[1])
        r = case(s, [(l, mux([(cof(g, s, l), cof(v, s, l)) for g, v in parts])) for l in labels])
        _muxm[k] = r
    return r


def cofx(t, s, l):
    return cof(t, s, l)


def case_force(s, arms):
    return case(s, arms)


def guardbool(g):
    """A guard tree as a boolean term (collapsed form)."""
    return map_leaves(g, lambda x: x)


# ---------------------------------------------------------------- queries

def subterms(t, stop=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if stop and stop(x):
            continue
        st.extend(children(x))


def children(x):
    out = []
    if x.op == "case":
        out.append(x.a[0])
        out.extend(v for _, v in x.a[1])
    else:
        for y in x.a:
            if isinstance(y, T):
                out.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        out.append(z)
                    elif isinstance(z, tuple):
                        out.extend(w for w in z if isinstance(w, T))
    return out


def contains(t, p):
    """Does any subterm satisfy p (a predicate or a term)?"""
    if isinstance(p, T):
        q = p
        for x in subterms(t):
            if x is q:
                return True
        return False
    for x in subterms(t):
        if p(x):
            return True
    return False


def has_unknown(t):
    return contains(t, lambda x: x.op == "unk")


def paths(t, lim=4096):
    """Yields (guards, leaf): guards is a tuple of (scrutinee, label)."""
    st = [((), t)]
    n = 0
    while st:
        g, x = st.pop()
        if x.op == "case":
            for l, v in x.a[1]:
                st.append((g + ((x.a[0], l),), v))
        elif x is not BOT:
            n += 1
            if n > lim:
                raise Limit("too many leaves")
            yield g, x


def subst(t, m, memo=None):
    """Replaces subterms by the mapping m (term -> term), rebuilding with normalisation."""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("int", "str", "bytes", "sym", "unk", "bot", "named"):
        r = t
    elif t.op == "case":
        s = subst(t.a[0], m, memo)
        r = case(s, [(l, subst(v, m, memo)) for l, v in t.a[1]])
    else:
        new = []
        ch = False
        for y in t.a:
            if isinstance(y, T):
                z = subst(y, m, memo)
                ch = ch or (z is not y)
                new.append(z)
            elif isinstance(y, tuple) and any(isinstance(q, T) for q in y):
                z = tuple(subst(q, m, memo) if isinstance(q, T) else q for q in y)
                ch = ch or z != y
                new.append(z)
            else:
                new.append(y)
        r = rebuild(t.op, new) if ch else t
    memo[t] = r
    return r


_rebuilders = {}


def rebuild(op, a):
    f = _rebuilders.get(op)
    if f:
        return f(*a)
    if op == "agg":
        return agg(*a)
    return mk(op, *a)


def register(op, f):
    _rebuilders[op] = f


# ---------------------------------------------------------------- display

def short(n):
    if not isinstance(n, str):
        return str(n)
    n = n.replace("std::option::", "").replace("std::result::", "")
    return n


def show(t, depth=12, budget=None):
    if budget is None:
        budget = [6000]
    if budget[0] <= 0:
        return "…"
    budget[0] -= 8
    if depth <= 0:
        return "…"

    def s(x):
        return show(x, depth - 1, budget)
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "bot":
        return "⊥"
    if op == "unk":
        return "?%s?" % (a[0],)
    if op == "bytes":
        return "0x" + (a[0] if len(a[0]) < 40 else a[0][:36] + "…")
    if op == "named":
        return a[0].split("::")[-1] if "::" in a[0] else a[0]
    if op == "agg":
        k = "" if a[0] == "tuple" else short(a[0]).split("::")[-1]
        v = a[1]
        nm = v if (v and v != k) else k
        if a[0] in ("tuple", "array"):
            return ("[%s]" if a[0] == "array" else "(%s)") % ", ".join(s(x) for x in a[3:])
        if not a[2]:
            return nm
        if a[2][0] == "0":
            return "%s(%s)" % (nm, ", ".join(s(x) for x in a[3:]))
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, s(x)) for n, x in zip(a[2], a[3:])))
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "as":
        return "%s:%s" % (s(a[0]), a[1])
    if op == "case":
        return "⟨%s ? %s⟩" % (s(a[0]), "; ".join("%s→%s" % (l, s(v)) for l, v in a[1]))
    if op == "call":
        return "%s(%s)" % (callname(a[0]), ", ".join(s(x) for x in a[1:]))
    if op == "elem":
        return "each(%s)" % s(a[0])
    if op == "rand":
        return "rand#%s[%s](%s)" % (a[1], callname(a[0]), ", ".join(s(x) for x in a[3:]))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else ("(" + ", ".join(s(z) if isinstance(z, T) else str(z) for z in x) + ")" if isinstance(x, tuple) else str(x)) for x in a))


def callname(n):
    return n if isinstance(n, str) else str(n)


def dag(t, big=60, depth=40):
    """Multi-line display that prints large shared subterms once."""
    cnt = {}
    st = [t]
    while st:
        x = st.pop()
        cnt[x] = cnt.get(x, 0) + 1
        if cnt[x] == 1:
            st.extend(children(x))
    names = {}
    lines = []

    def r(x):
        if x in names:
            return names[x]
        txt = one(x)
        if cnt.get(x, 0) > 1 and len(txt) > big:
            n = "$%d" % (len(names) + 1)
            names[x] = n
            lines.append("%s = %s" % (n, txt))
            return n
        return txt

    def one(x):
        op, a = x.op, x.a
        if op in ("int", "str", "sym", "bot", "unk", "bytes", "named"):
            return show(x)
        if op == "agg":
            k = "" if a[0] == "tuple" else short(a[0]).split("::")[-1]
            nm = a[1] if (a[1] and a[1] != k) else k
            if a[0] in ("tuple", "array"):
                return ("[%s]" if a[0] == "array" else "(%s)") % ", ".join(r(y) for y in a[3:])
            if not a[2]:
                return nm
            if a[2][0] == "0":
                return "%s(%s)" % (nm, ", ".join(r(y) for y in a[3:]))
            return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, r(y)) for n, y in zip(a[2], a[3:])))
        if op == "fld":
            return "%s.%s" % (r(a[0]), a[1])
        if op == "as":
            return "%s:%s" % (r(a[0]), a[1])
        if op == "case":
            return "⟨%s ? %s⟩" % (r(a[0]), "; ".join("%s→%s" % (l, r(v)) for l, v in a[1]))
        if op == "call":
            return "%s(%s)" % (a[0], ", ".join(r(y) for y in a[1:]))
        if op == "elem":
            return "each(%s)" % r(a[0])
        if op == "rand":
            return "rand#%s[%s](%s)" % (a[1], a[0], ", ".join(r(y) for y in a[3:]))
        return "%s(%s)" % (op, ", ".join(r(y) if isinstance(y, T) else ("(" + ", ".join(r(z) if isinstance(z, T) else str(z) for z in y) + ")" if isinstance(y, tuple) else str(y)) for y in a))
    last = r(t)
    lines.append(last)
    return "\n".join(lines)
