"""Valuations of terms: every unknown operation is some function, every selection takes one of its arms.

Used for two things only: to look for terms that are the same value under all valuations tried
(candidates, each of which the congruence procedure then has to prove equal), and to withhold a
verdict of "different" for which no valuation can be exhibited."""
import time
import zlib
from .terms import *
from .equal import Eq, Budget, expand, contract, unrep, bytecat
from .ranges import Known, compared

DEAD = -7
_P = (1 << 127) - 1


class Infeasible(Exception):
    pass


class Again(Exception):
    pass


def order(*ts):
    seen = set()
    for t in ts:
        seen.update(subterms(t))
    return sorted(seen, key=lambda x: x.id)


def written_out(t, memo):
    """t with maps and folds over literal sequences expanded and buffers as concatenations"""
    r = memo.get(t)
    if r is not None:
        return r
    m = {}
    for x in order(t):
        if x.op in ("map", "fold", "segs", "concat"):
            y = expand(x) if x.op in ("map", "fold") else unrep(bytecat(x))
            if y is not None and y is not x:
                m[x] = y
    r = subst(t, m) if m else t
    memo[t] = r
    return r


class Val:
    def __init__(self, seed, force=None, bias=None, small=False):
        self.seed = seed
        self.small = small    # lengths are small
        self.bias = bias      # (in how many of 8 conditions hold, whether results are mostly successes)
        self.force = force or {}
        self.tab = {}         # (op, values) -> value, decided beforehand
        self.lab = {}         # value of a scrutinee -> arm
        self.strs = {}

    def h(self, *k):
        return (hash((self.seed,) + k) & ((1 << 60) - 1)) + (1 << 70)

    def s(self, x):
        r = self.strs.get(x)
        if r is None:
            r = self.strs[x] = zlib.crc32(x if isinstance(x, bytes) else str(x).encode())
        return r

    def run(self, nodes):
        for _ in range(40):
            try:
                return self.once(nodes)
            except Again:
                pass
        raise Infeasible()

    def once(self, nodes):
        v = {}
        seen = {}
        labs = dict(self.lab)
        for t in nodes:
            v[t] = self.node(t, v, seen, labs)
        self.labs = labs
        return v

    def node(self, t, v, seen, labs):
        op = t.op
        if op == "int":
            return t.a[0]
        if op == "bot":
            return DEAD
        if op == "case":
            return self.arm(t, v, labs)
        k = [self.s(op)]
        for y in t.a:
            if isinstance(y, T):
                k.append(v[y])
            elif isinstance(y, tuple):
                k.extend(v[q] if isinstance(q, T) else self.s(q) for q in y)
            elif isinstance(y, int):
                k.append(y)
            else:
                k.append(self.s(y))
        if op == "add":
            return sum(k[1:])
        if op == "mul":
            p = 1
            for x in k[1:]:
                p = p * x
            return p if abs(p) < (1 << 60) else p % _P + (1 << 80)
        if op == "cast" and k[-1] in (0, 1):
            return k[-1]
        if op == "neg":
            return -k[1]
        if op in ("max", "min"):
            return max(k[1:]) if op == "max" else min(k[1:])
        if op == "eq":
            if k[1] == k[2] and t not in self.force:
                return 1
            k[1:] = sorted(k[1:])
        k = tuple(k)
        l = self.force.get(t)
        boolean = op in BOOL_OPS
        if l is not None and l.isdigit():
            w = int(l)
            if op == "eq" and k[1] == k[2] and w == 0:
                raise Infeasible()
            if self.tab.get(k, w) != w:
                raise Infeasible()
            if seen.get(k, w) != w:
                self.tab[k] = w
                raise Again()
            self.tab[k] = seen[k] = w
            return w
        r = self.tab.get(k)
        if r is None:
            r = seen.get(k)
        if r is None:
            if op == "lt" and all(isinstance(x, int) and abs(x) < (1 << 65) for x in k[1:]):
                r = int(k[1] < k[2])
            elif op == "eq" and all(abs(x) < (1 << 65) for x in k[1:]):
                r = int(k[1] == k[2])
            elif op == "bitset" and all(0 <= x < (1 << 65) for x in k[1:]) and k[2] < 512:
                r = k[1] >> k[2] & 1
            else:
                r = self.h(*k)
                if self.small and (op == "len" or op == "sym" and t.a[-1] in ("usize", "u64", "u32")):
                    r = (r >> 5) % 4
                if boolean:
                    r = r >> 7 & 1 if self.bias is None else int((r >> 7) % 8 < self.bias[0])
        seen[k] = r
        if l is not None:
            if self.lab.get(r, l) != l:
                raise Infeasible()
            if labs.get(r, l) != l:
                self.lab[r] = l
                raise Again()
            self.lab[r] = labs[r] = l
        return r

    def arm(self, t, v, labs):
        x = dict(t.a[1]).get(self.label(t, v, labs))
        return DEAD if x is None else v[x]

    def label(self, t, v, labs):
        s = t.a[0]
        w = v[s]
        arms = dict(t.a[1])
        if w in (0, 1) and (str(w) in arms or s.op in BOOL_OPS):
            return str(w)
        l = labs.get(w)
        if l is None:
            ls = sorted(arms)
            h = self.h(w, 17)
            if self.bias and self.bias[1] and h % 8:
                good = [x for x in ls if x in ("Ok", "Some")]
                ls = good or ls
            l = labs[w] = ls[(h >> 9) % len(ls)]
        return l


def differ(a, b, env, n=24):
    """Is there a valuation, within the conditions of env or at all, under which a and b differ?"""
    memo = {}
    a, b = written_out(contract(a), memo), written_out(contract(b), memo)
    env = {written_out(contract(s), memo): l for s, l in env.items()}
    for force in ((env, {}) if env else ({},)):
        nodes = order(a, b, *force)
        for seed in range(n):
            try:
                v = Val(seed, force, None, seed % 2 == 1).run(nodes)
            except Infeasible:
                continue
            if v[a] != v[b]:
                return True
    return False


def witness(adts, a, b, n=160, seconds=25):
    """A difference between a and b, found along one path through their selections: a valuation picks the
    arms, the rest is compared by congruence. None when none is found (which says nothing)."""
    end = time.time() + seconds
    memo = {}
    a, b = written_out(contract(a), memo), written_out(contract(b), memo)
    nodes = order(a, b)
    tried = set()
    for seed in range(n):
        if time.time() > end:
            return None
        bias = None if seed % 4 == 0 else ((1, 4, 7)[seed // 4 % 3], seed % 4 != 1)
        V = Val(seed, None, bias)
        try:
            v = V.run(nodes)
        except Infeasible:
            continue
        if v[a] == v[b]:
            continue
        env = {}
        red = {}

        def go(t):
            st = [t]
            while st:
                x = st[-1]
                if x in red:
                    st.pop()
                    continue
                if x.op == "case":
                    l = V.label(x, v, V.labs)
                    y = dict(x.a[1]).get(l)
                    if y is None:
                        red[x] = BOT
                    elif y in red and x.a[0] in red:
                        env[x.a[0]] = l
                        red[x] = red[y]
                    else:
                        st.extend(z for z in (y, x.a[0]) if z not in red)
                else:
                    ks = [z for z in children(x) if z not in red]
                    if ks:
                        st.extend(ks)
                    else:
                        na = tuple(red[z] if isinstance(z, T) else tuple(red[q] if isinstance(q, T) else q for q in z) if isinstance(z, tuple) else z for z in x.a)
                        red[x] = x if na == x.a else rebuild(x.op, na)
            return red[t]
        p, q = go(a), go(b)
        if p is BOT or q is BOT:
            continue
        m = {}
        for s, l in env.items():
            if s.op == "eq" and l == "1":
                x, y = sorted((red[z] for z in s.a), key=lambda z: (z.op != "int", z.id))
                if x is not y and y.op != "int":
                    m[y] = x
        p, q = subst(p, m), subst(q, m)
        if p is q or (p, q) in tried:
            continue
        tried.add((p, q))
        kn = Known({s: l for s, l in env.items() if compared(s) is not None})
        if not kn.ok:
            continue
        try:
            d = Eq(adts, 600, 5).eq(p, q)
        except Budget:
            continue
        if d is not None:
            d.env = dict(list(env.items())[:12])
            return d
    return None


def cut(x, y):
    """both with what they share replaced by new symbols"""
    sx, sy = set(subterms(x)), set(subterms(y))
    com = sx & sy
    m = {}

    def go(z):
        st, seen = [z], set()
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            if q is not x and q is not y and q in com and q.op in ("call", "case", "fld", "mut", "mul", "add") and q.size > 8 and not contains(
                    q, lambda p: p.op in ("elem", "idx", "acc", "accv", "accn", "bv", "pre")):
                m.setdefault(q, mk("sym", "cut%d" % q.id, ""))
                continue
            st.extend(children(q))
    go(x)
    go(y)
    return subst(x, m), subst(y, m)


def sweep(adts, a, b, seconds=25, samples=24, limit=30000):
    """a and b with parts that are provably the same value made the same term"""
    end = time.time() + seconds
    memo = {}
    a, b = written_out(contract(a), memo), written_out(contract(b), memo)
    nodes = order(a, b)
    if len(nodes) > limit:
        return a, b
    sigs = {}
    for seed in range(samples):
        v = Val(seed).run(nodes)
        for t in nodes:
            sigs.setdefault(t, []).append(v[t])
    groups = {}
    m, rep = {}, {}
    for t in nodes:
        if t.op in ("case", "call", "mut") or t.op in BOOL_OPS:
            k = tuple(sigs[t])
            if len(set(k)) < 2:
                continue
            r = rep.setdefault(k, t)
            if r is t:
                continue
            if time.time() > end:
                break
            x, y = subst(t, m), subst(r, m)
            same = x is y
            if not same:
                for p, q, n in (cut(x, y) + (300,), (x, y, 200)):
                    e = Eq(adts, n, 3)
                    e.depth = 2
                    try:
                        if e.eq(p, q) is None:
                            same = True
                            break
                    except Budget:
                        pass
            if same:
                m[t] = r
    return (subst(a, m), subst(b, m)) if m else (a, b)
