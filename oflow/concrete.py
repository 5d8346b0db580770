"""Terms written out for sequences of chosen lengths.

Every sequence whose length is not known gets a literal length; maps, folds, sums and searches are
written out over their positions, with the conditions left symbolic. Used only to withhold verdicts: a
difference between two terms that disappears at every choice of lengths tried is not reported."""
import signal
import time
from .terms import *
from .seqs import index, slc, concat, arr, is_arr, known_len, length, LEN, infinite
from .arith import ZERO, add, b_or, t_eq, t_lt
from .equal import Eq, Budget, BINDERS
from .ranges import typeof

MAX = 80


class Unsupported(Exception):
    pass


LAST = None


class Spent(Exception):
    """The processor time for writing out and comparing is used up"""


_running = [False]


def _spent(*a):
    raise Spent()


class within:
    """The enclosed code is interrupted by Spent after so many seconds of processor time, whatever it is doing. (Terms are immutable and
    caches are only written with finished results, so that stopping anywhere is harmless.)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.on = not _running[0]
        if self.on:
            _running[0] = True
            self.old = signal.signal(signal.SIGVTALRM, _spent)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *e):
        if self.on:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, self.old)
            _running[0] = False


class Dead(Exception):
    """A loop around the term has no positions"""


OPAQUE = ("sym", "fld", "call", "index", "as", "mut", "rand", "unk")


_deps = {}


def deps(t):
    """the positions and elements of loops that t mentions"""
    r = _deps.get(t)
    if r is None:
        r = frozenset((t,)) if t.op in ("elem", "idx", "accv", "at") else frozenset((mk("idx", t.a[0]),)) if t.op == "pre" else frozenset()
        for x in children(t):
            d = deps(x)
            if d:
                r = r | d if r else d
        _deps[t] = r
    return r


class Lengths:
    """One choice of lengths"""

    def __init__(self, cands, r):
        self.cands, self.r = cands, r
        self.dirty = False       # a length was chosen after terms with the sequence in them had been written out
        self.n = {}      # sequence -> its length
        self.rep = {}    # sequence -> the symbol of that length standing for it

    def set(self, v, n):
        if n > 640:
            raise Unsupported("length")
        self.n[v] = n
        s = mk("sym", "seq%d.%d" % (v.id, n), typeof(v))
        LEN[s] = n
        self.rep[v] = s
        self.dirty = True
        return s

    def need(self, v):
        """v is used as a sequence"""
        if v.op not in OPAQUE or v in self.rep.values():
            raise Unsupported("sequence " + v.op)
        if v in self.rep:
            return self.rep[v]
        j = len(self.n)
        return self.set(v, self.cands[-self.r % 9] if self.r < 0 else self.cands[(self.r + 3 * j) % len(self.cands)])

    def atleast(self, v, n):
        for w, s in list(self.rep.items()):
            if s is v and self.n[w] < n:
                return self.set(w, n + (0, 1, 7)[self.r % 3])
        return v


def nothing(x):
    """the sum of no terms like x"""
    while x.op in ("case", "neg", "add", "mul") and x.a:
        x = x.a[1][0][1] if x.op == "case" else x.a[0]
    ty = x.a[0] if x.op in ("rand", "call") and isinstance(x.a[0], str) else typeof(x) or ""
    return ZERO if "pasta_curves::F" in ty or "pasta_curves::Ep" in ty else FALSE


class Inst:
    def __init__(self, L, end, env=None, at=None):
        self.L, self.end, self.at = L, end, at
        self.memos = [{}]
        self.bound = [frozenset()]
        self.env = dict(env or {})
        self.steps = 0
        self.top = 0

    def val(self, t):
        # the innermost loop whose position t mentions
        k = len(self.memos) - 1
        if k:
            d = deps(t)
            while k and (not d or self.bound[k].isdisjoint(d)):
                k -= 1
        memo = self.memos[k]
        r = memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps % 500 == 0 and time.time() > self.end or self.steps > 400000:
                raise Budget()
            r = self.env.get(t)
            if r is None:
                r = self._val(t)
                r = self.L.rep.get(r, r)
            memo[t] = r
        return r

    def under(self, b, k, items, body, more=()):
        """body at position k of base b"""
        old, self.env = self.env, dict(self.env)
        self.bind(b, k, items)
        for x, y in more:
            self.env[x] = y
        self.memos.append({})
        self.bound.append({x for x, y in self.env.items() if old.get(x) is not y})
        try:
            return self.val(body)
        finally:
            self.memos.pop()
            self.bound.pop()
            self.env = old

    def bind(self, b, k, items):
        self.env[mk("idx", b)] = I(k)
        self.env[mk("elem", b)] = items[k]
        if b.op == "take":
            self.bind(b.a[0], k, items)
        elif b.op == "zip":
            for x in b.a:
                self.bind(x, k, self.items(self.val(x)))
        elif b.op == "perm":
            n = len(items)
            inner = self.items(self.val(b.a[0]))
            j = (k + 1) % n
            save = self.env
            self.env = dict(save)
            self.bind(b.a[0], j, inner)
            e2, self.env = self.env, save
            for x, y in e2.items():
                if x not in save or save[x] is not y:
                    self.env[mk("at", x, b)] = y

    def items(self, v, cap=None):
        """the elements of the sequence v"""
        if is_arr(v):
            return list(v.a[3:])
        if v.op == "concat":
            out = []
            for x in v.a:
                out += self.items(x, None if cap is None else cap - len(out))
                if cap is not None and len(out) >= cap:
                    return out[:cap]
            return out
        if v.op == "repeatw" and v.a[1] is UNIT:
            if cap is None:
                raise Unsupported("infinite")
            return [v.a[0]] * cap
        n = known_len(v)
        if n is None:
            if v.op == "case":
                raise Unsupported("selected sequence")
            v = self.L.need(v)
            n = known_len(v)
        if cap is not None:
            n = min(n, cap)
        if n > 640:
            raise Unsupported("length")
        return [index(v, I(k)) for k in range(n)]

    def seq(self, t, cap=None):
        return self.items(self.val(t), cap)

    def _val(self, t, upto=None):
        """upto: a loop is taken only over its first so many positions"""
        op, a = t.op, t.a
        if op in ("int", "str", "bytes", "sym", "bot", "named"):
            return t
        if op == "case":
            s = self.val(a[0])
            if s.op in ("int", "agg"):
                l = str(s.a[0]) if s.op == "int" else s.a[1]
                for m, v in a[1]:
                    if m == l:
                        return self.val(v)
                return BOT
            return case(s, [(l, self.val(v)) for l, v in a[1]])
        if op in ("unk", "acc", "accn", "foldsys", "filtseq", "flatseq", "seqcase", "preat", "lam"):
            raise Unsupported(op)
        if op in ("elem", "idx") and self.at is not None:
            # a position of a loop around the term
            its = self.base_items(a[0])
            if not its:
                raise Dead()
            self.top = max(self.top, len(its))
            self.bind(a[0], self.at % len(its), its)
            return self.val(t)
        if op in ("elem", "idx", "accv"):
            raise Unsupported("free " + op)
        if op == "at":
            raise Unsupported("at")
        if op in ("map", "any", "first", "bigsum", "flat", "foreach", "filt", "last", "fold"):
            b = a[0]
            bv = self.val(b) if b.op not in ("take", "zip", "perm") else None
            if bv is not None and bv.op == "case":
                raise Unsupported("selected sequence")
            its = self.base_items(b)
            if upto is not None:
                its = its[:upto]
            at = lambda k, x, more=(): self.under(b, k, its, x, more)
            R = range(len(its))
            if op == "map":
                return arr(*[at(k, a[1]) for k in R])
            if op == "any":
                r = FALSE
                for k in R:
                    r = b_or(r, at(k, a[1]))
                return r
            if op == "bigsum":
                return add(*[at(k, a[1]) for k in R]) if its else nothing(a[1])
            if op == "flat":
                return concat(*[at(k, a[1]) for k in R])
            if op == "foreach":
                return tup(*[at(k, x) for k in R for x in a[1:]])
            if op == "first":
                r = BOT
                for k in reversed(R):
                    g = at(k, a[1])
                    v = at(k, a[2])
                    r = v if g is TRUE else r if g is FALSE else case(g, [("1", v), ("0", r)])
                return r
            if op == "filt":
                return concat(*[arr(at(k, a[2])) if g is TRUE else case(g, [("1", arr(at(k, a[2]))), ("0", arr())])
                                for k in R for g in (at(k, a[1]),) if g is not FALSE])
            if op == "last":
                return at(len(its) - 1, a[2]) if its else self.val(a[1])
            v = self.val(a[1])
            for k in R:
                v = at(k, a[2], ((mk("accv", b), v),))
                v = self.L.rep.get(v, v)
            return v
        if op == "take" and not (a[0].op in ("slice", "map") and longer(a[0])):
            v, n = self.val(a[0]), self.val(a[1])
            if n.op == "int" and n.a[0] > MAX and v.op in OPAQUE and known_len(v) is None:
                return rebuild("take", [v, n])
        if op in ("take", "zip", "rev", "skip", "perm", "range"):
            return arr(*self.base_items(t))
        if op == "pre":
            k = self.env.get(mk("idx", a[0]))
            if k is None:
                raise Unsupported("pre")
            if a[1].op not in ("map", "any", "bigsum", "flat", "filt", "fold", "last") or a[1].a[0] is not a[0] or k.op != "int":
                raise Unsupported("pre")
            return self._val(a[1], k.a[0])
        if op == "hasnext":
            return I(int(bool(self.seq(a[0], 1))))
        if op == "len":
            return I(len(self.seq(a[0])))
        if op == "lastel":
            return self.seq(a[0])[-1]
        if op == "upd" and a[1] in (("i",), "i"):
            s, i, v = self.seq(a[0]), self.val(a[2]), self.val(a[3])
            if i.op != "int":
                raise Unsupported("position")
            if not 0 <= i.a[0] < len(s):
                return BOT
            s[i.a[0]] = v
            return arr(*s)
        if op in ("index", "slice"):
            s = self.val(a[0])
            p = self.val(a[1])
            q = self.val(a[2]) if op == "slice" else None
            if s.op not in ("case",) and not is_arr(s):
                if known_len(s) is None and s.op in OPAQUE:
                    s = self.L.need(s)
                top = p.a[0] + 1 if p.op == "int" and op == "index" else q.a[0] if q is not None and q.op == "int" else None
                if top is not None:
                    s = self.L.atleast(s, top)
            if is_arr(s) and p.op == "int":
                if op == "index":
                    return s.a[3 + p.a[0]] if 0 <= p.a[0] < len(s.a) - 3 else BOT
                if q.op == "end":
                    return arr(*s.a[3 + p.a[0]:])
            return rebuild(op, [s, p] if q is None else [s, p, q])
        if op == "absorb":
            out = []
            for x in a:
                v = self.val(x) if isinstance(x, T) else x
                if isinstance(x, T) and x.op == "foreach":
                    out.extend(v.a[3:])
                else:
                    out.append(v)
            return rebuild(op, out)
        new = []
        for y in a:
            if isinstance(y, T):
                new.append(self.val(y))
            elif isinstance(y, tuple) and any(isinstance(q, T) for q in y):
                new.append(tuple(self.val(q) if isinstance(q, T) else q for q in y))
            else:
                new.append(y)
        if op == "call":
            new = [whole(v) if isinstance(v, T) and is_arr(v) else v for v in new]
        if op == "agg":
            return BOT if any(v is BOT for v in new if isinstance(v, T)) else mk("agg", *new)
        return rebuild(op, new)

    def base_items(self, b):
        op, a = b.op, b.a
        if op == "take":
            n = self.val(a[1])
            if n.op != "int" or n.a[0] > MAX:
                raise Unsupported("take")
            return self.seq_items(a[0], n.a[0])[:n.a[0]]
        if op == "skip":
            n = self.val(a[1])
            if n.op != "int":
                raise Unsupported("skip")
            return self.seq_items(a[0])[n.a[0]:]
        if op == "zip":
            parts = [self.seq_items(x, MAX) for x in a]
            n = min(len(p) for p in parts)
            return [tup(*[p[k] for p in parts]) for k in range(n)]
        if op == "rev":
            return self.seq_items(a[0])[::-1]
        if op == "perm":
            s = self.seq_items(a[0])
            return s[1:] + s[:1]
        if op == "range":
            lo, hi = self.val(a[0]), self.val(a[1])
            if lo.op != "int" or hi.op != "int" or hi.a[0] - lo.a[0] > MAX:
                raise Unsupported("range")
            return [I(k) for k in range(lo.a[0], hi.a[0])]
        return self.seq(b)

    def seq_items(self, t, cap=None):
        if t.op in ("take", "skip", "zip", "rev", "perm", "range"):
            return self.base_items(t)
        if cap is not None and t.op == "slice" and longer(t.a[0]) and t.a[2].op == "end":
            n = self.val(t.a[1])
            if n.op == "int" and 0 <= n.a[0] <= MAX:
                return self.seq_items(t.a[0], n.a[0] + cap)[n.a[0]:]
        if cap is not None and t.op == "map" and longer(t.a[0]):
            its = self.seq_items(t.a[0], cap)
            return [self.under(t.a[0], k, its, t.a[1], ()) for k in range(len(its))]
        return self.seq(t, cap)


def longer(t):
    return infinite(t) or t.op in ("slice", "map") and longer(t.a[0]) and (t.op == "map" or t.a[2].op == "end")


def whole(v):
    """a sequence from all of its elements in order"""
    xs = v.a[3:]
    if xs and all(x.op == "index" and x.a[0] is xs[0].a[0] and x.a[1].op == "int" and x.a[1].a[0] == k for k, x in enumerate(xs)) and \
            known_len(xs[0].a[0]) == len(xs):
        return xs[0].a[0]
    return v


def constants(t):
    c = set()
    for x in subterms(t):
        if x.op in ("lt", "eq", "max", "min", "bin", "bit", "add") and any(isinstance(y, T) and contains(y, lambda z: z.op in ("len", "idx")) for y in x.a):
            for y in subterms(x, lambda z: z.op in BINDERS):
                if y.op == "int" and 2 < abs(y.a[0]) <= MAX - 9:
                    c.update((abs(y.a[0]) - 1, abs(y.a[0]), abs(y.a[0]) + 1))
        if x.op in ("take", "slice") and known_len(x.a[0]) is None and not infinite(x.a[0]):
            for y in x.a[1:]:
                if y.op == "int" and 2 < y.a[0] <= MAX - 9:
                    c.update((y.a[0] - 1, y.a[0], y.a[0] + 1))
    return c


def candidates(*ts):
    """lengths worth trying: small ones, and those about the constants compared with lengths, those that only the first term has before the others"""
    cs = [constants(t) for t in ts]
    own = sorted(cs[0].difference(*cs[1:])) if len(cs) > 1 else []
    c = [0, 1, 2, 3] + [x for x in own if x > 3]
    c += [x for x in sorted(set().union(*cs)) if x > 3 and x not in own]
    return sorted(c[:14])


def beyond(t):
    """t treats positions or lengths differently from one on that is too large to be written out"""
    for x in subterms(t):
        if x.op in ("lt", "eq", "max", "min", "bin", "bit"):
            k = [y.a[0] for y in x.a if isinstance(y, T) and y.op == "int"]
            if any(MAX - 9 < abs(v) < 1 << 48 for v in k) and any(
                    isinstance(y, T) and (y.op in ("len", "idx") or contains(y, lambda z: z.op in ("len", "idx")) and y.op in ("add", "neg", "mul", "bin", "cast")) for y in x.a):
                return True
    return False


def passes(L, ts, end, at=None, env=None):
    """(the terms written out for the choice of lengths L, most positions of a loop around them). The choice is completed as sequences are met."""
    for _ in range(60):
        L.dirty = False
        i = Inst(L, end, env, at)
        try:
            vs = [i.val(t) for t in ts]
        except (Unsupported, Dead):
            if not L.dirty:
                raise
        if not L.dirty:
            return vs, i.top
    raise Unsupported("lengths")


TRIES = [-1, 2, 3, 1, 0]


def instances(ts, seconds, env=None):
    """the terms ts written out, for each choice of lengths"""
    end = time.time() + seconds
    cands = candidates(*ts)
    for r in TRIES + list(range(4, len(cands))):
        L = Lengths(cands, r)
        yield L, passes(L, ts, end, env=env)[0]


def never(g, false, allowed, seconds=15):
    try:
        with within(2 * seconds):
            return _never(g, false, allowed, seconds)
    except Spent:
        return None


def _never(g, false, allowed, seconds):
    """whether `false` accepts the condition g, which may mention positions of loops around it, at every choice of lengths tried
    and every position. None: not known."""
    n = 0
    end = time.time() + seconds
    if beyond(g):
        return None
    try:
        cands = candidates(g)
        for r in TRIES + [-9, -2] + list(range(4, len(cands))):
            L, at, top = Lengths(cands, r), 0, 1
            while at < top:
                try:
                    (x,), t = passes(L, [g], end, at)
                except Dead:
                    break
                top = max(top, t)
                at += 1
                if not allowed(L):
                    break
                n += 1
                if not false(x):
                    return False
    except (Unsupported, Budget, Limit, RecursionError):
        return None
    return True if n else None


def loops(t):
    return {(x.op, x.a[0]) for x in subterms(t) if x.op in ("map", "any", "first", "bigsum", "flat", "foreach", "filt", "last", "fold")}


def same(adts, a, b, seconds=40, given=(), norm=None):
    seen = []
    try:
        with within(1.5 * seconds):
            return _same(adts, a, b, seconds, given, norm, seen)
    except Spent:
        return True if seen and (any(seen) or loops(a) - loops(b)) else None


def _same(adts, a, b, seconds, given, norm, seen):
    """"always": no length was chosen, and a and b are the same value. True: a and b are the same value at every choice of lengths tried. False: they differ at one.
    None: not known."""
    n = 0
    if beyond(a):
        return None
    try:
        given = list(given)
        for L, (x, y, *g) in instances([a, b] + [c for c, _ in given], seconds):
            if not L.n and x is a and y is b:
                return None
            if any(v.op == "int" and str(v.a[0]) != l for v, (_, l) in zip(g, given)):
                continue
            if norm is not None:
                x, y = norm(x), norm(y)
            d = Eq(adts, 4000, 8).eq(x, y)
            if d is not None:
                global LAST
                LAST = d
                return False
            n += 1
            seen.append(all(k > 1 for k in L.n.values()))
            if not L.n:
                return "always"
    except (Unsupported, Budget, Limit, RecursionError) as e:
        if not (n and isinstance(e, Budget) and (any(seen) or loops(a) - loops(b))):
            return None
    return True if n else None
