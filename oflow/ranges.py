"""Intervals of integer terms, and what comparisons with constants imply about each other."""
import re
from .terms import *

ADTS = {}          # set by Program: type path -> definition

# What every value of a type satisfies beyond its machine type. C02 proves the entry for ValueSum at each
# place a ValueSum is made.
M = (1 << 64) - 1
MAXLEN = (1 << 63) - 1      # no allocation is larger than isize::MAX bytes
INV = {("value::ValueSum", "0"): (-M, M)}

# external newtypes over integers that the models treat as the integer
NEWTYPES = {"incrementalmerkletree::Level": (0, 255)}

INTW = re.compile(r"^([iu])(8|16|32|64|128|size)$")


def tyrange(ty):
    m = INTW.match(ty or "")
    if not m:
        return NEWTYPES.get(ty)
    w = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, (1 << w) - 1) if m.group(1) == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def strip(ty):
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    return ty


_ty = {}


def typeof(t):
    r = _ty.get(t)
    if r is None:
        r = _typeof(t)
        _ty[t] = r
    return r


def _typeof(t):
    if t.op == "sym":
        return strip(t.a[1]) if len(t.a) > 1 and t.a[1] else ""
    if t.op == "fld":
        b = typeof(t.a[0])
        a = ADTS.get(re.sub(r"<.*", "", b)) if b else None
        if a and len(a["vs"]) == 1:
            for f in a["vs"][0]["f"]:
                if f[0] == t.a[1]:
                    return strip(f[1])
        if t.a[0].op == "as" and t.a[1] == "0":
            o = typeof(t.a[0].a[0])
            m = re.match(r"^(?:std|core)::option::Option<(.*)>$", o)
            if m and t.a[0].a[1] == "Some":
                return strip(m.group(1))
    if t.op == "at":
        return typeof(t.a[0])
    if t.op in ("elem", "index") and t.a[0].op in ("concat", "take", "skip", "perm", "rev"):
        s = t.a[0]
        if s.op != "concat":
            return typeof(mk(t.op, s.a[0], *t.a[1:]))
        return next((r for r in (typeof(mk(t.op, x, *t.a[1:])) for x in s.a if isinstance(x, T)) if r), "")
    if t.op == "agg" and isinstance(t.a[0], str) and t.a[0] in ADTS:
        return t.a[0]
    if t.op in ("elem", "index"):
        o = typeof(t.a[0])
        m = re.match(r"^(?:(?:std|alloc)::vec::Vec<(.*)>|\[(.*?)(?:; \w+)?\])$", o)
        if m:
            return strip((m.group(1) or m.group(2)))
    if t.op == "cast":
        return t.a[0] if isinstance(t.a[0], str) else ""
    if t.op == "call" and isinstance(t.a[0], str):
        m = re.match(r"^Into::into@.*<-([iu](?:8|16|32|64|128|size))$", t.a[0])
        if m:
            return m.group(1)
    return ""


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (max(a[0], b[0]), min(a[1], b[1]))


_iv = {}


def interval(t):
    """(lo, hi) containing every value of the integer term t, or None. Either end may be None."""
    if t in _iv:
        return _iv[t]
    r = _interval(t)
    _iv[t] = r
    return r


LEARNED = {}       # what the machine type an operation is done in says of its operands


def learn(t, ty):
    """t is an operand of type ty"""
    if t.op in ("index", "elem", "fld", "bin", "bit", "call", "sym", "lastel") and interval(t) is None:
        r = tyrange(ty)
        if r is not None:
            LEARNED[t] = _iv[t] = r


def meet2(a, b):
    """the meet of intervals whose ends may be None"""
    if b is None:
        return a
    return (b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0]),
            b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1]))


def plus(a, b):
    return None if a is None or b is None else a + b


def most(s):
    """The largest length sequence s can have, or None"""
    from .seqs import length
    if s.op in ("map", "perm", "rev", "upd"):
        return most(s.a[0])
    if s.op == "zip":
        ks = [k for k in map(most, s.a) if k is not None]
        return min(ks) if ks else None
    m = re.match(r"^\[.*; (\d+)\]$", typeof(s))
    if m:
        return int(m.group(1))
    n = length(s)
    if n.op == "len":
        return None
    i = interval(n)
    return i[1] if i else None


def _interval(t):
    op = t.op
    if op == "int":
        return (t.a[0], t.a[0])
    if op == "zero":
        return (0, 0)
    if op == "idx" and isinstance(t.a[0], T):
        m = most(t.a[0])
        return (0, MAXLEN - 1 if m is None else m - 1)
    if op == "first" and t.a[2].op == "idx" and t.a[2].a[0] is t.a[0]:
        return interval(t.a[2])      # a position of its sequence, where it is a value at all
    if op in ("len", "idx"):
        return (0, MAXLEN)
    if op in BOOL_OPS:
        return (0, 1)
    if op == "elem" and t.a[0].op == "range":
        lo, hi = interval(t.a[0].a[0]), interval(t.a[0].a[1])
        return (lo[0] if lo else None, plus(hi[1], -1) if hi else None)
    if op in ("sym", "fld", "cast") or op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("Into::into@"):
        r = tyrange(typeof(t))
        if op == "fld":
            r = meet(r, INV.get((typeof(t.a[0]), t.a[1])))
        return r
    if op == "add":
        lo = hi = 0
        for x in t.a:
            i = interval(x)
            if i is None:
                return None
            lo, hi = plus(lo, i[0]), plus(hi, i[1])
        if len(t.a) <= 4:
            # max(a, b) - a is not negative: a maximum is at least each of its arguments
            from .arith import add, neg
            for x in t.a:
                y = x.a[0] if x.op == "neg" else x
                if y.op not in ("max", "min"):
                    continue
                rest = list(t.a)
                rest.remove(x)
                least = (y.op == "max") == (x.op != "neg")      # the sum is at least each of the alternatives
                for z in y.a:
                    if not any((q.a[0] if q.op == "neg" else q) is z for q in rest):
                        continue
                    i = interval(add(*rest, neg(z) if x.op == "neg" else z))
                    if i is None:
                        continue
                    if least and i[0] is not None:
                        lo = i[0] if lo is None else max(lo, i[0])
                    if not least and i[1] is not None:
                        hi = i[1] if hi is None else min(hi, i[1])
        return (lo, hi)
    if op == "neg":
        i = interval(t.a[0])
        return None if i is None else (None if i[1] is None else -i[1], None if i[0] is None else -i[0])
    if op in ("max", "min"):
        ivs = [interval(x) for x in t.a]
        f = max if op == "max" else min
        lo, hi = [], []
        for i in ivs:
            lo.append(None if i is None else i[0])
            hi.append(None if i is None else i[1])
        if op == "max":
            l = [x for x in lo if x is not None]
            return (max(l) if l else None, None if None in hi else max(hi))
        h = [x for x in hi if x is not None]
        return (None if None in lo else min(lo), min(h) if h else None)
    if op == "case":
        lo, hi = [], []
        for l, v in t.a[1]:
            i = interval(v)
            if i is None:
                return None
            lo.append(i[0])
            hi.append(i[1])
        return (None if None in lo else min(lo), None if None in hi else max(hi))
    if op == "bigsum":
        i = interval(t.a[1])
        if i is None:
            return None
        return (0 if i[0] is not None and i[0] >= 0 else None, 0 if i[1] is not None and i[1] <= 0 else None)
    if op == "call" and isinstance(t.a[0], str):
        m = re.match(r"^num::\w+<([iu]\w+)>$", t.a[0])
        if m:
            return tyrange(m.group(1))
    if op == "bin" and len(t.a) == 3 and t.a[2].op == "int" and t.a[2].a[0] >= 0:
        k = t.a[2].a[0]
        i = interval(t.a[1])
        if i is not None and i[0] is not None and i[0] >= 0:
            if t.a[0] == "Shr":
                return (i[0] >> k, None if i[1] is None else i[1] >> k)
            if t.a[0] == "Div" and k:
                return (i[0] // k, None if i[1] is None else i[1] // k)
            if t.a[0] == "Rem" and k:
                return (0, k - 1 if i[1] is None else min(i[1], k - 1))
    if op == "bit" and t.a[0] == "BitAnd":
        c = [x.a[0] for x in t.a[1:] if x.op == "int" and x.a[0] >= 0]
        if c:
            return (0, min(c))
    return LEARNED.get(t)


def decide_lt(e, c):
    """e < c for every value of e: True, False or None"""
    i = interval(e)
    if i is None:
        return None
    if i[1] is not None and i[1] < c:
        return True
    if i[0] is not None and i[0] >= c:
        return False
    return None


def lt_const(e, c):
    """canonical form of e < c: constants moved right, orientation fixed"""
    if e.op == "int":
        return TRUE if e.a[0] < c else FALSE
    if e.op == "add":
        k = sum(x.a[0] for x in e.a if x.op == "int")
        if k:
            rest = [x for x in e.a if x.op != "int"]
            return lt_const(rest[0] if len(rest) == 1 else mk("add", *rest), c - k)
        from .arith import neg
        ne = neg(e)
        if all(x.op == "neg" for x in e.a) or (any(x.op == "neg" for x in e.a) and ne.id < e.id):
            d = decide_lt(e, c)
            if d is not None:
                return TRUE if d else FALSE
            return case(mk("lt", ne, I(-c + 1)), [("1", FALSE), ("0", TRUE)])
    if e.op == "neg":
        d = decide_lt(e, c)
        if d is not None:
            return TRUE if d else FALSE
        r = lt_const(e.a[0], -c + 1)
        return map_leaves(r, lambda x: FALSE if x is TRUE else TRUE if x is FALSE else case(x, [("1", FALSE), ("0", TRUE)]))
    d = decide_lt(e, c)
    if d is not None:
        return TRUE if d else FALSE
    if c == 1:
        i = interval(e)
        if i is not None and i[0] == 0:
            from .arith import t_eq
            return t_eq(e, I(0))
    return mk("lt", e, I(c))


def t_fits(ty, e):
    """whether the integer e is representable in ty"""
    lo, hi = tyrange(ty)

    def f(x):
        if x.op == "int":
            return TRUE if lo <= x.a[0] <= hi else FALSE
        a, b = lt_const(x, lo), lt_const(x, hi + 1)
        return case(a, [("1", FALSE), ("0", b)]) if a.op != "int" else (FALSE if a is TRUE else b)
    return map_leaves(e, f)


def t_ovf(ty, e):
    r = t_fits(ty, e)
    return map_leaves(r, lambda x: FALSE if x is TRUE else TRUE if x is FALSE else case(x, [("1", FALSE), ("0", TRUE)]))


def t_abs(v):
    def g(x):
        from .arith import neg
        if x.op == "int":
            return I(abs(x.a[0]))
        return case(lt_const(x, 0), [("0", x), ("1", neg(x))])
    return map_leaves(v, g)


def atom(s):
    """(e, c) if s is the comparison e < c"""
    if s.op == "lt" and isinstance(s.a[1], T) and s.a[1].op == "int":
        return s.a[0], s.a[1].a[0]
    return None


def compared(s):
    """(e, lo, hi) if s holds exactly when lo <= e <= hi (None: unbounded), for constants lo and hi"""
    if s.op == "lt":
        if s.a[1].op == "int":
            return s.a[0], None, s.a[1].a[0] - 1
        if s.a[0].op == "int":
            return s.a[1], s.a[0].a[0] + 1, None
    elif s.op == "eq":
        for i in (0, 1):
            if s.a[i].op == "int" and s.a[1 - i].op not in ("agg", "int"):
                return s.a[1 - i], s.a[i].a[0], s.a[i].a[0]
    elif s.op == "bitset" and s.a[1].op == "int":
        # the top bit of an unsigned integer
        r = tyrange(typeof(s.a[0]))
        if r and r[0] == 0 and r[1] + 1 == 2 << s.a[1].a[0]:
            return s.a[0], 1 << s.a[1].a[0], None
    return None


def relation(s):
    """compared, also for two integer terms"""
    c = compared(s)
    if c is None and s.op in ("lt", "eq") and len(s.a) >= 2 and isinstance(s.a[0], T) and isinstance(s.a[1], T):
        from .arith import t_sub
        x, y = s.a[0], s.a[1]
        if s.op == "lt" or (interval(x) is not None and interval(y) is not None):
            d = t_sub(x, y)
            return (d, None, -1) if s.op == "lt" else (d, 0, 0)
    return c


class Known:
    """What decided comparisons say about integer terms: an interval and excluded values for each."""

    def __init__(self, env):
        self.d = {}
        self.ok = True
        for s, l in env.items():
            self.add(s, l)

    def get(self, e):
        r = self.d.get(e)
        i = self.iv(e) or (None, None)
        if r is None:
            return [i[0], i[1], set()]
        lo = r[0] if i[0] is None or (r[0] is not None and r[0] >= i[0]) else i[0]
        hi = r[1] if i[1] is None or (r[1] is not None and r[1] <= i[1]) else i[1]
        return [lo, hi, r[2]]

    def iv(self, e):
        """The interval of e from what is known of its parts"""
        if e.op == "add":
            lo = hi = 0
            for x in e.a:
                l, h, _ = self.get(x)
                lo, hi = plus(lo, l), plus(hi, h)
            i = interval(e)
            return meet2((lo, hi), i)
        if e.op == "neg":
            l, h, _ = self.get(e.a[0])
            return (None if h is None else -h, None if l is None else -l)
        return interval(e)

    def add(self, s, l):
        c = relation(s)
        if c is None or l not in ("0", "1"):
            return
        e, lo, hi = c
        r = self.d[e] = self.get(e)
        if l == "1":
            if lo is not None:
                r[0] = lo if r[0] is None else max(r[0], lo)
            if hi is not None:
                r[1] = hi if r[1] is None else min(r[1], hi)
        elif lo is None:
            r[0] = hi + 1 if r[0] is None else max(r[0], hi + 1)
        elif hi is None:
            r[1] = lo - 1 if r[1] is None else min(r[1], lo - 1)
        else:
            r[2].add(lo)
        while r[0] in r[2]:
            r[0] += 1
        while r[1] in r[2]:
            r[1] -= 1
        if r[0] is not None and r[1] is not None and r[0] > r[1]:
            self.ok = False
        if e.op in ("add", "case"):
            from .arith import neg
            self.d[neg(e)] = [None if r[1] is None else -r[1], None if r[0] is None else -r[0], {-x for x in r[2]}]

    def says(self, s):
        """'0', '1' or None"""
        c = relation(s)
        if c is None:
            return None
        e, lo, hi = c
        L, H, X = self.get(e)
        if (lo is None or (L is not None and L >= lo)) and (hi is None or (H is not None and H <= hi)):
            return "1"
        if (hi is not None and L is not None and L > hi) or (lo is not None and H is not None and H < lo):
            return "0"
        if lo is not None and lo == hi and lo in X:
            return "0"
        return None


def implied(s, l, s2):
    """What s = l says about s2: '0', '1' or None"""
    p, q = atom(s), atom(s2)
    if not p or not q or p[0] is not q[0]:
        return None
    if l == "1" and q[1] >= p[1]:
        return "1"
    if l == "0" and q[1] <= p[1]:
        return "0"
    return None


def prune(t):
    """t without the branches that contradict the comparisons above them"""
    memo = {}

    def go(x, env):
        if x.op != "case":
            return x
        k = (x, env)
        if k in memo:
            return memo[k]
        s = x.a[0]
        p = atom(s)
        d = dict(env)
        if p is None:
            r = case(s, [(l, go(v, env)) for l, v in x.a[1]])
        else:
            lo, hi = d.get(p[0], (None, None))
            arms = []
            for l, v in x.a[1]:
                if l == "1":
                    if lo is not None and lo >= p[1]:
                        continue
                    n = (lo, p[1] - 1 if hi is None else min(hi, p[1] - 1))
                else:
                    if hi is not None and hi < p[1]:
                        continue
                    n = (p[1] if lo is None else max(lo, p[1]), hi)
                d2 = dict(d)
                d2[p[0]] = n
                arms.append((l, go(v, tuple(sorted(d2.items(), key=lambda z: z[0].id)))))
            r = arms[0][1] if len(arms) == 1 else case(s, arms)
        memo[k] = r
        return r
    return go(t, ())


def guarded(g, e):
    """The interval of e where the guard tree g holds; None if g says nothing about e."""
    if not any(compared(x) is not None and compared(x)[0] is e for x in gscruts(g)):
        return None
    memo = {}

    def go(t, iv):
        if t is TRUE:
            return iv
        if t is FALSE or t is BOT:
            return None
        r = memo.get((t, iv), 0)
        if r != 0:
            return r
        c = compared(t.a[0])
        r = None
        for l, v in t.a[1]:
            j = iv
            if c is not None and c[0] is e:
                kn = Known({})
                kn.d[e] = [iv[0], iv[1], set()]
                kn.add(t.a[0], l)
                if not kn.ok:
                    continue
                j = (kn.d[e][0], kn.d[e][1])
            q = go(v, j)
            if q is not None:
                r = q if r is None else (None if None in (r[0], q[0]) else min(r[0], q[0]),
                                         None if None in (r[1], q[1]) else max(r[1], q[1]))
        memo[(t, iv)] = r
        return r
    return go(g, tuple(interval(e) or (None, None)))


_gs = {}


def gscruts(g):
    r = _gs.get(g)
    if r is None:
        r = set()
        st, seen = [g], set()
        while st:
            x = st.pop()
            if x.op != "case" or x in seen:
                continue
            seen.add(x)
            r.add(x.a[0])
            st.extend(v for _, v in x.a[1])
        _gs[g] = r
    return r


def uncast(t, g, to):
    """The case tree t without the conversions to `to` of values that the guard g shows to fit."""
    rng = tyrange(to)
    memo = {}

    def go(x, g):
        k = (x, g)
        r = memo.get(k)
        if r is not None:
            return r
        r = x
        if x.op == "case":
            s = x.a[0]
            ls = [l for l, _ in x.a[1]]
            r = case(s, [(l, go(v, g_and(g, rawcase(s, [(m, TRUE if m == l else FALSE) for m in ls])))) for l, v in x.a[1]])
        elif x.op == "cast" and x.a[0] == to:
            iv = guarded(g, x.a[1])
            if iv and None not in iv and rng[0] <= iv[0] and iv[1] <= rng[1]:
                r = x.a[1]
        memo[k] = r
        return r
    return go(t, g) if rng else t
