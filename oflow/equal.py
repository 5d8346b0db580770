"""Equality of terms by congruence, eta, and case splitting on shared scrutinees."""
import time
from .terms import *
from .interp import _fld, _as, seg_parts
from .ranges import Known, relation, tyrange
from .arith import t_eq, ZERO, add, bigsum, b_or
from .seqs import concat, arr, at, known_len, length, is_arr, slc, index, runs, ispace, elem, idx, smap, t_pre

_am = {}


def assume(t, s, l):
    """t with every selection on s decided as l."""
    k0 = (s, l)
    memo = _am.setdefault(k0, {})
    same = const = None
    if s.op == "eq" and l == "1" and s.a[0].op == "int" and s.a[1].op in ("len", "sym", "fld"):
        const, same = s.a

    gone = same.a[0] if same is not None and same.op == "len" and const is FALSE else None

    def empty(b):
        return b is gone or (b.op in ("take", "skip", "rev", "perm", "map", "filt", "flat") and empty(b.a[0])) or \
            b.op == "take" and go(b.a[1]) is FALSE or (b.op == "zip" and any(empty(y) for y in b.a))

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if gone is not None and x.op in ("any", "bigsum", "fold") and empty(x.a[0]):
            r = go(x.a[1]) if x.op == "fold" else FALSE
        elif x is s and s.op in BOOL_OPS:
            r = I(int(l))
        elif x is same:
            r = const
        elif x.op == "case":
            if x.a[0] is s:
                r = BOT
                for l2, v in x.a[1]:
                    if l2 == l:
                        r = go(v)
            else:
                r = case(go(x.a[0]), [(l2, go(v)) for l2, v in x.a[1]])
        elif x.a and any(isinstance(y, T) for y in x.a):
            na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else (BOT if any(y is BOT for y in na) else rebuild(x.op, na))
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


BINDERS = {"map", "any", "first", "fold", "bigsum", "foreach", "filt", "mkfirst", "foldsys", "all"}
_fs = {}


def scruts(t):
    """Scrutinees selected on anywhere in t, with whether they mention a bound position."""
    r = _fs.get(t)
    if r is None:
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "case":
                out.add(x.a[0])
            st.extend(children(x))
        r = frozenset(out)
        _fs[t] = r
    return r


_bd = {}


def bound_in(t):
    """Index spaces whose positions occur in t."""
    r = _bd.get(t)
    if r is None:
        r = set()
        if t.op in ("elem", "idx", "acc", "accv", "pre"):
            r.add(t.a[0])
        if t.op == "bv":
            r.add(("bv", t.a[0]))
        for c in children(t):
            r |= bound_in(c)
        r = frozenset(r)
        _bd[t] = r
    return r


def bytecat(t):
    """a buffer written completely, as the concatenation of what was written"""
    if t.op == "segs" and t.a[1] is UNIT:
        return concat(*[v if v.op != "el" else arr(v.a[0]) for _, _, v in seg_parts(t)])
    if t.op == "segs" and t.a[1].op == "repeat" and isinstance(t.a[0], int):
        out, p = [], 0
        gap = lambda n: [mk("repeat", t.a[1].a[0], I(n))] if n else []
        for l, h, v in seg_parts(t):
            out += gap(l - p) + [v if v.op != "el" else arr(v.a[0])]
            p = h
        return concat(*(out + gap(t.a[0] - p)))
    return t


def literal(t):
    """a sequence of literal integers as the list of its runs, or None"""
    if t.op == "bytes" and t.a[1] == 1:
        out = [(x, 1) for x in bytes.fromhex(t.a[0])]
    elif is_arr(t) and all(x.op == "int" for x in t.a[3:]):
        out = [(x.a[0], 1) for x in t.a[3:]]
    elif t.op == "repeat" and t.a[0].op == "int" and isinstance(t.a[1], T) and t.a[1].op == "int":
        out = [(t.a[0].a[0], t.a[1].a[0])]
    elif t.op == "concat":
        out = []
        for x in t.a:
            y = literal(x)
            if y is None:
                return None
            out += y
    else:
        return None
    r = []
    for x, n in out:
        if r and r[-1][0] == x:
            r[-1] = (x, r[-1][1] + n)
        elif n:
            r.append((x, n))
    return r


def unrep(t):
    """short runs of one value in a concatenation, written out"""
    short = lambda q: q.op == "repeat" and q.a[1].op == "int" and 0 < q.a[1].a[0] <= 64
    if short(t):
        return arr(*[t.a[0]] * t.a[1].a[0])
    if t.op == "concat" and any(short(q) for q in t.a):
        return concat(*[arr(*[q.a[0]] * q.a[1].a[0]) if short(q) else q for q in t.a])
    return t


def pair(x, y):
    """what has to be equal for two conditions to be the same one; None if that is not to be expected"""
    if x.op != y.op:
        return None
    if x.op == "any":
        return (x.a[1], y.a[1]) if x.a[0] is y.a[0] else None
    for i in (0, 1):
        for j in (0, 1):
            if x.a[i] is y.a[j] and x.a[i].op != "int" and x.a[1 - i].op == y.a[1 - j].op or (x.a[i] is y.a[j] and "fold" in (x.a[1 - i].op, y.a[1 - j].op)):
                return x.a[1 - i], y.a[1 - j]
    return None


def differs(x):
    """c if x says that some element of its sequence differs from the constant c"""
    if x.op == "any" and x.a[1].op == "case":
        s, arms = x.a[1].a[0], dict(x.a[1].a[1])
        if s.op == "eq" and arms.get("1") is FALSE and arms.get("0") is TRUE:
            for i in (0, 1):
                if s.a[i].op == "int" and s.a[1 - i].op == "elem" and s.a[1 - i].a[0] is x.a[0]:
                    return s.a[i]
    return None


class Budget(Exception):
    pass


def expand(t):
    """a map or fold over a sequence of literal length, written out"""
    if t.op not in ("map", "fold") or t.a[0].op == "agg":
        return None
    b = t.a[0]
    n = known_len(b)
    if n is None or n > 64 or b.op in ("filt", "perm", "concat", "take"):
        return None
    if t.op == "map":
        return arr(*[at(b, i, t.a[1]) for i in range(n)])
    if contains(t.a[2], lambda x: x.op in ("accn", "acc")):
        return None
    v = t.a[1]
    for i in range(n):
        v = at(b, i, t.a[2], v)
    return v


class Diff:
    def __init__(self, path, a, b, env):
        self.path, self.a, self.b, self.env = path, a, b, env

    def __str__(self):
        e = ", ".join("%s=%s" % (show(s, 3)[:50], l) for s, l in self.env.items())
        return "at %s%s: found %s ; expected %s" % (" / ".join(self.path[-8:]) or "value", " when " + e[:300] if e else "",
                                                  last(self.a), last(self.b))


def last(t, n=900):
    """t with its shared parts after it"""
    l = dag(t).split("\n")
    r = l[-1]
    return (r + (" where " + "; ".join(l[:-1]) if len(l) > 1 else ""))[:n]


def simple(b):
    return b.op not in ("filt", "perm", "concat", "take", "rev", "flat", "skip")


_uc = {}
CHAINED = ("any", "bigsum", "map", "filt", "first", "fold", "foreach", "flat")


def chained(t):
    return t.op in CHAINED and t.a[0].op == "concat"


def unchain(t):
    """loops over a chain of sequences, as one loop after another"""
    r = _uc.get(t)
    if r is not None:
        return r
    if not contains(t, chained):
        r = t
    elif t.op == "pre":
        r = t
    else:
        r = one_by_one(t) if chained(t) else None
        if r is not None:
            r = unchain(r)
        elif t.op == "case":
            r = case(unchain(t.a[0]), [(l, unchain(v)) for l, v in t.a[1]])
        else:
            na = tuple(unchain(x) if isinstance(x, T) else x for x in t.a)
            r = t if all(p is q for p, q in zip(na, t.a)) else rebuild(t.op, na)
    _uc[t] = r
    return r


def one_by_one(t):
    b, op = t.a[0], t.op
    body = list(t.a[1:])
    if op == "fold":
        body = [t.a[2]]
    pres = {x for y in body for x in subterms(y) if x.op == "pre" and x.a[0] is b}
    if any(x.a[1].op != "bigsum" or x.a[1].a[0] is not b for x in pres):
        return None
    e, i, v = mk("elem", b), mk("idx", b), mk("accv", b)
    sofar = {x: FALSE for x in pres}
    off = FALSE
    out = []
    new = mk("sym", "a place in the chain")
    for p in b.a:
        if is_arr(p):
            for x in p.a[3:]:
                m = {e: x, i: off}
                m.update(sofar)
                out.append((None, m))
                sofar = {q: add(s, subst(q.a[1].a[1], m)) for q, s in sofar.items()}
                off = add(off, TRUE)
        elif p.op == "case":
            return None
        else:
            sp = ispace(p)
            m = {e: elem(p), i: add(mk("idx", sp), off) if sp.op != "range" else add(idx(sp), off)}
            m2 = dict(m)
            for q, s in sofar.items():
                w = bigsum(sp, subst(q.a[1].a[1], m))
                m2[q] = add(s, t_pre(sp, w))
                sofar = {**sofar, q: add(s, w)}
            out.append((sp, m2))
            off = add(off, length(p))
    rest = dict.fromkeys((e, i, v, *pres), new)
    if any(contains(subst(x, rest), lambda y: y is b) for x in body):
        return None
    if op == "any":
        r = FALSE
        for sp, m in out:
            g = subst(body[0], m)
            r = b_or(r, g if sp is None or g is FALSE else mk("any", sp, g))
        return r
    if op == "bigsum":
        return add(*[subst(body[0], m) if sp is None else bigsum(sp, subst(body[0], m)) for sp, m in out])
    if op == "map":
        return concat(*[arr(subst(body[0], m)) if sp is None else smap(sp, subst(body[0], m)) for sp, m in out])
    if op == "foreach":
        return None
    if op == "filt":
        r = []
        for sp, m in out:
            g, x = subst(body[0], m), subst(body[1], m)
            if sp is None:
                r.append(arr(x) if g is TRUE else arr() if g is FALSE else case(g, [("1", arr(x)), ("0", arr())]))
            else:
                r.append(rebuild("filt", [sp, g, x]))
        if any(x.op == "case" for x in r):
            return None
        return concat(*r)
    if op == "first":
        r = BOT
        for sp, m in reversed(out):
            g, x = subst(body[0], m), subst(body[1], m)
            h, x = (g, x) if sp is None else (mk("any", sp, g), mk("first", sp, g, x))
            r = r if g is FALSE else x if g is TRUE and sp is None else case(h, [("1", x), ("0", r)])
        return r
    if op == "fold":
        r = t.a[1]
        for sp, m in out:
            if sp is None:
                r = subst(subst(body[0], m), {v: r})
            else:
                r = rebuild("fold", [sp, r, subst(body[0], {**m, v: mk("accv", sp)})])
        return r
    return None


_ct = {}


def contract(t):
    """A value taken apart and put together again is that value."""
    t = unchain(t)
    r = _ct.get(t)
    if r is not None:
        return r
    if t.op == "case":
        r = case(contract(t.a[0]), [(l, contract(v)) for l, v in t.a[1]])
    elif any(isinstance(x, T) for x in t.a):
        na = tuple(contract(x) if isinstance(x, T) else x for x in t.a)
        r = t if all(p is q for p, q in zip(na, t.a)) else rebuild(t.op, na)
        if r.op == "agg" and len(r.a) > 3 and r.a[0] not in (OPTION, RESULT, "array", "tuple") and not r.a[0].startswith("closure"):
            src = None
            for n, v in zip(r.a[2], r.a[3:]):
                if v.op != "fld" or v.a[1] != n or (src is not None and v.a[0] is not src):
                    src = None
                    break
                src = v.a[0]
            if src is not None:
                if src.op == "as" and src.a[1] == r.a[1]:
                    r = src.a[0]
                elif src.op != "as" and len(r.a) > 4:
                    r = src
        elif r.op == "call" and r.a[0].endswith("BinaryNumeralString::to_bytes_le"):
            r = inverse(r)
        elif r.op == "call" and r.a[0] in SMALL:
            r = small(r)
        elif is_arr(r) and len(r.a) > 4 and any(v.op == "index" for v in r.a[3:]):
            r = runs(r.a[3:])
        elif r.op == "segs" and any(v.op == "el" for v in r.a[3:]) and bytecat(r) is not r:
            r = contract(bytecat(r))
        elif r.op == "map" and any(x.op == "index" and contains(x.a[1], lambda y: y.op == "idx") for x in (r.a[1],)):
            x = expand(r)
            if x is not None and all(v.op == "index" and v.a[1].op == "int" for v in x.a[3:]):
                r = runs(x.a[3:])
    else:
        r = t
    _ct[t] = r
    return r


SMALL = {"From::from@%s<-%s" % (f, u): f for f in ("pasta_curves::Fp", "pasta_curves::Fq") for u in ("u64", "bool")}


def small(t):
    """the field elements zero and one, however they are written"""
    f = SMALL[t.a[0]]

    def leaf(l):
        return ZERO if l is FALSE else mk("call", f + "::one") if l is TRUE else mk("call", t.a[0], l)
    if t.a[0].endswith("bool"):
        return map_leaves(asguard(t.a[1]), leaf)
    return map_leaves(t.a[1], leaf)


def inverse(t):
    """FF1 is a permutation: encrypting what was decrypted under the same key and tweak gives it back."""
    def ok(x):
        if x.op != "fld" or x.a[1] != "0" or x.a[0].op != "as" or x.a[0].a[1] != "Ok":
            return None
        return x.a[0].a[0]

    o = ok(t.a[1])
    if o is None or o.op != "call":
        return t
    for f, g in (("FF1::encrypt", "FF1::decrypt"), ("FF1::decrypt", "FF1::encrypt")):
        if o.a[0].endswith(f) and o.a[3].op == "call" and o.a[3].a[0].endswith("from_bytes_le"):
            m = o.a[3].a[1]
            if m.op == "call" and m.a[0] == t.a[0]:
                i = ok(m.a[1])
                if i is not None and i.op == "call" and i.a[0].endswith(g) and i.a[1] is o.a[1] and i.a[2] is o.a[2]:
                    n = i.a[3]
                    if n.op == "call" and n.a[0].endswith("from_bytes_le"):
                        return n.a[1]
    return t


def resolved(t, env):
    """t with the selections decided that the conditions in env decide"""
    kn = Known(env)
    for s, l in env.items():
        t = assume(t, s, l)
    for p in scruts(t):
        m = kn.says(p)
        if m is not None:
            t = assume(t, p, m)
    return t


class Eq:
    fresh = 0
    depth = 0

    def __init__(self, adts, budget=3000, seconds=None):
        self.adts = adts
        self.budget = budget
        self.good = set()
        self.end = time.time() + seconds if seconds else None

    def struct(self, kind):
        a = self.adts.get(kind)
        return kind == "tuple" or (a is not None and not a["enum"])

    def eq(self, a, b, env=None, path=(), free=frozenset()):
        """None if equal, else a Diff"""
        if env is None:
            a, b = self.unify(contract(a), contract(b))
        env = env or {}
        if a is b:
            return None
        k = (a, b, tuple(env.items()))
        if k in self.good:
            return None
        r = self._eq(a, b, env, path, free)
        if r is None:
            self.good.add(k)
        return r

    def unify(self, a, b):
        """Quantified conditions that are the same condition in two forms are made one term."""
        if self.depth > 1:
            return a, b
        c = sorted((x for x in scruts(a) | scruts(b) if x.op in ("any", "eq")), key=lambda x: x.id)
        m = {}
        for x in c:
            k = differs(x)
            for y in c if k is not None else ():
                if y.op == "eq" and x.a[0] in y.a:
                    q = y.a[1] if y.a[0] is x.a[0] else y.a[0]
                    if q.op == "repeat" and q.a[0] is k:
                        n = t_eq(length(x.a[0]), length(q))
                        r = case(y, [("1", FALSE), ("0", TRUE)])
                        m[x] = r if n is TRUE else case(n, [("1", r), ("0", x)])
        for i, x in enumerate(c):
            if x in m:
                continue
            for y in c[i + 1:]:
                p = pair(x, y)
                if y not in m and p:
                    e = Eq(self.adts, 800)
                    e.depth = self.depth + 1
                    e.end = self.end
                    if e.end and time.time() > e.end:
                        raise Budget()
                    try:
                        if e.eq(*p) is None:
                            m[y] = x
                    except Budget:
                        pass
        return (subst(a, m), subst(b, m)) if m else (a, b)

    def _eq(self, a, b, env, path, free):
        self.budget -= 1
        if self.budget < 0 or (self.end and time.time() > self.end):
            raise Budget()
        if a is BOT or b is BOT:
            return Diff(path, a, b, env)
        if (a.op in ("map", "fold") or b.op in ("map", "fold")) and not (a.op == b.op and a.a[0] is b.a[0]):
            x, y = expand(a), expand(b)
            if x is not None or y is not None:
                return self.eq(x if x is not None else a, y if y is not None else b, env, path, free)
        if a.op == "case" or b.op == "case":
            ss = [x.a[0] for x in (a, b) if x.op == "case"]
            s = min(ss, key=lambda x: x.id)
            return self.split(a, b, s, env, path, free)
        # eta
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == "agg" and (y.op != "agg") and x.a[0] not in ("array",) and not x.a[0].startswith("closure"):
                v = None
                if self.struct(x.a[0]):
                    v = y
                elif env.get(y) == x.a[1]:
                    v = _as(y, x.a[1])
                if v is not None and len(x.a) > 3:
                    for i, n in enumerate(x.a[2]):
                        p, q = x.a[3 + i], _fld(v, n)
                        d = self.eq(*((q, p) if sw else (p, q)), env, path + (n,), free)
                        if d:
                            return d
                    return None
                if v is not None and len(x.a) == 3:
                    return None
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and env.get(x, "").isdigit() and int(env[x]) == y.a[0]:
                return None
        if (a.op == "segs") != (b.op == "segs"):
            x, y = bytecat(a), bytecat(b)
            if x is not a or y is not b:
                return self.eq(x, y, env, path, free)
        if a.op in ("bytes", "concat", "repeat") and b.op in ("bytes", "concat", "repeat") and a.op != b.op:
            x = literal(a)
            if x is not None and x == literal(b):
                return None
        x, y = unrep(a), unrep(b)
        if (x is not a or y is not b) and (a.op != b.op or len(a.a) != len(b.a)):
            return self.eq(x, y, env, path, free)
        if is_arr(a) != is_arr(b):
            x, y = (a, b) if is_arr(a) else (b, a)
            if y.op != "agg" and len(x.a) > 3 and known_len(y) == len(x.a) - 3:
                y = arr(*[index(y, I(i)) for i in range(len(x.a) - 3)])
                return self.eq(*((x, y) if is_arr(a) else (y, x)), env, path, free)
        d = Diff(path, a, b, env)
        if a.op == b.op and len(a.a) == len(b.a):
            d2 = self.congr(a, b, env, path, free)
            if d2 is None:
                return None
            d = d2 if isinstance(d2, Diff) else d
        # splitting on a selection buried inside
        cand = [s for s in (scruts(a) | scruts(b)) if s not in env and self.okbound(s, a, b, free)]
        if not cand or len(env) > 12:
            return d
        s = min(cand, key=lambda x: x.id)
        r = self.split(a, b, s, env, path, free)
        return r

    def okbound(self, s, a, b, free):
        return all(x in free or not (self.binds(a, x) or self.binds(b, x)) for x in bound_in(s))

    def binds(self, t, x):
        seen, st = set(), [t]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op in BINDERS and y.a and y.a[0] is x:
                return True
            if y.op == "lam" and isinstance(x, tuple):
                return True
            st.extend(children(y))
        return False

    def congr(self, a, b, env, path, free):
        op = a.op
        if op in ("add", "mul", "max", "min", "bit"):
            xs, ys = list(a.a), list(b.a)
            for x in list(xs):
                if x in ys:
                    xs.remove(x)
                    ys.remove(x)
            if len(xs) != len(ys):
                return True
            for x in xs:
                hit = None
                for y in ys:
                    if isinstance(x, T) and isinstance(y, T) and x.op == y.op and self.eq(x, y, env, path + (op,), free) is None:
                        hit = y
                        break
                if hit is None:
                    return True
                ys.remove(hit)
            return None
        f2 = free
        if op in BINDERS and isinstance(a.a[0], T):
            if a.a[0] is not b.a[0]:
                if op in ("map", "fold", "bigsum", "any") and simple(a.a[0]) and simple(b.a[0]):
                    d = self.eq(length(a.a[0]), length(b.a[0]), env, path + (op + " length",), free)
                    if d:
                        return d
                    self.fresh += 1
                    k, acc = mk("bv", "pos%d" % self.fresh, 0), mk("bv", "acc%d" % self.fresh, 0)
                    for x, y in zip(a.a[1:], b.a[1:]):
                        if op == "fold" and x is a.a[1]:
                            x2, y2 = x, y
                        else:
                            x2, y2 = at(a.a[0], k, x, acc), at(b.a[0], k, y, acc)
                        d = self.eq(x2, y2, env, path + (op,), free)
                        if d:
                            return d
                    return None
                return True
            f2 = free | {a.a[0]}
        if op == "lam":
            f2 = free | bound_in(a) | bound_in(b)
        nm = a.a[2] if op == "agg" else None
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if isinstance(x, T) and isinstance(y, T):
                p = nm[i - 3] if nm and 0 <= i - 3 < len(nm) else ("%s#%d" % (callname(a.a[0]) if op == "call" else op, i))
                d = self.eq(x, y, env, path + (str(p),), f2)
                if d:
                    return d
            elif x != y:
                return True
        return None

    def split(self, a, b, s, env, path, free):
        labels = set()
        for x in (a, b):
            if x.op == "case" and x.a[0] is s:
                labels.update(l for l, _ in x.a[1])
        for x in (a, b):
            for y in subterms(x):
                if y.op == "case" and y.a[0] is s:
                    labels.update(l for l, _ in y.a[1])
        for l in sorted(labels):
            a2, b2 = assume(a, s, l), assume(b, s, l)
            if relation(s) is not None:
                e = dict(env)
                e[s] = l
                kn = Known(e)
                if not kn.ok:
                    continue
                for p in (scruts(a2) | scruts(b2)):
                    m = kn.says(p)
                    if m is not None:
                        a2, b2 = assume(a2, p, m), assume(b2, p, m)
                casts = {}
                for x in (a2, b2):
                    for y in subterms(x):
                        if y.op == "cast" and isinstance(y.a[0], str) and isinstance(y.a[1], T) and y.a[1] in kn.d and y not in casts:
                            L, H, _ = kn.get(y.a[1])
                            r = tyrange(y.a[0])
                            if r and L is not None and H is not None and r[0] <= L and H <= r[1]:
                                casts[y] = y.a[1]
                if casts:
                    a2, b2 = subst(a2, casts), subst(b2, casts)
            if a2 is BOT and b2 is BOT:
                continue
            e2 = dict(env)
            e2[s] = l
            d = self.eq(a2, b2, e2, path, free)
            if d:
                return d
        return None
