"""What the constraints of a circuit say about its cells: polynomials over F_p, ranges, and canonical encodings."""
from oflow.terms import *

P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
T_P = P - (1 << 254)


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- polynomials: {sorted tuple of atoms: coefficient}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % P
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            r[k] = (r.get(k, 0) + c * d) % P
    return {m: c for m, c in r.items() if c}


def const(k):
    return {(): k % P} if k % P else {}


def atom_(t):
    return {(t,): 1}


def scaled(p):
    """up to a constant factor"""
    if not p:
        return ()
    ms = sorted(p, key=lambda m: tuple(t.id for t in m))
    k = pow(p[ms[0]], P - 2, P)
    return tuple((m, p[m] * k % P) for m in ms)


def poly(t, env):
    """the expression t as a polynomial; env gives the meaning of a query"""
    op = t.op
    if op == "int":
        return const(t.a[0])
    if op == "zero":
        return {}
    if op == "add":
        r = {}
        for x in t.a:
            r = padd(r, poly(x, env))
        return r
    if op == "neg":
        return padd({}, poly(t.a[0], env), -1)
    if op == "mul":
        r = const(1)
        for x in t.a:
            r = pmul(r, poly(x, env))
        return r
    if op == "agg" and t.a[1] == "Constant":
        return poly(t.a[3], env)
    if op == "call":
        n = t.a[0]
        if n == "q":
            return env(t)
        if n.startswith(("From::from@pasta_curves::Fp<-u", "PrimeField::from_u128@pasta_curves::Fp")) and t.a[1].op == "int":
            return const(t.a[1].a[0])
        if n in ("Constant", "Expression::Constant"):
            return poly(t.a[1], env)
        last = n.split("@")[0].split("::")[-1]
        if last == "one":
            return const(1)
        if last == "zero":
            return {}
        if last in ("square", "double"):
            x = poly(t.a[1], env)
            return pmul(x, x) if last == "square" else padd(x, x)
        if last in ("bool_check", "range_check"):
            x = poly(t.a[1], env)
            k = 2 if last == "bool_check" else t.a[2].a[0] if t.a[2].op == "int" else 0
            if not 0 < k <= 8:
                raise Unknown(last)
            r = x
            for i in range(1, k):
                r = pmul(r, padd(const(i), x, -1))
            return r
        if last in ("pow", "pow_vartime") and len(t.a) >= 3:
            e = t.a[2]
            ls = list(e.a[3:]) if e.op == "agg" else [e]
            x = poly(t.a[1], env)
            if all(l.op == "int" for l in ls) and set(x) <= {()}:
                return const(pow(x.get((), 0), sum(l.a[0] << (64 * i) for i, l in enumerate(ls)), P))
    raise Unknown(show(t, 3))


class Facts:
    """The constraints that hold of every accepted witness, read from a log of oflow.halo."""

    def __init__(self, log):
        self.up = {}
        self.polys = []          # canonical polynomials that vanish
        self.known = set()
        self.public = {}         # slot -> terms
        self.equal = []
        self.unknown = []        # constraints that were not understood
        self.guarded = []
        self.gadgets = []
        put = {}
        gates, enabled = {}, []
        for e in log:
            g, kind = e[0], e[1]
            if g is not TRUE:
                self.guarded.append(e)
                continue
            if kind == "put":
                put[(e[2], e[3], num(e[4]))] = e[5]
            elif kind == "gate":
                self.gate(e[3], gates)
            elif kind == "enable":
                enabled.append(e)
            elif kind == "equal":
                self.union(cellof(e[2]), cellof(e[3]))
                self.equal.append((cellof(e[2]), cellof(e[3])))
            elif kind == "public":
                self.public.setdefault(num(e[4]), []).append((e[3], cellof(e[2])))
            elif kind == "gadget":
                self.gadgets.append(e[3])
        self.put = put
        for e in enabled:
            _, _, region, sel, row = e[:5]
            if sel not in gates:
                self.unknown.append("a selector without gate: " + show(sel, 2))
            for p in gates.get(sel, ()):
                self.enable(p, region, num(row))
        self.ranges()

    # -- structure
    def gate(self, t, gates):
        if t.op == "call" and t.a[0] == "with_selector":
            sel, seq = t.a[1], t.a[2]
            if sel.op == "call" and sel.a[0] == "q" and is_seq(seq):
                ps = []
                for x in seq.a[3:]:
                    if x.op == "agg" and len(x.a) == 5:
                        x = x.a[4]
                    ps.append(x)
                gates.setdefault(sel.a[1], []).extend(ps)
                return
        self.unknown.append("gate " + show(t, 2))

    def enable(self, p, region, row):
        def env(q):
            col, rot = q.a[1], num(q.a[2]) if len(q.a) > 2 else 0
            c = self.put.get((region, col, row + rot))
            if c is None:
                raise Unknown("an unassigned cell")
            c = self.rep(cellof(c))
            if c.op == "call" and c.a[0] == "constant":
                return poly(c.a[1], env)
            return atom_(c)
        try:
            r = poly(p, env)
        except Unknown as u:
            self.unknown.append(str(u))
            return
        s = scaled(r)
        if s not in self.known:
            self.known.add(s)
            self.polys.append(r)

    def rep(self, t):
        while t in self.up:
            t = self.up[t]
        return t

    def union(self, a, b):
        a, b = self.rep(a), self.rep(b)
        if a is not b:
            # a cell the prover chooses names the class
            if (chosen(b), -b.id) > (chosen(a), -a.id):
                a, b = b, a
            self.up[b] = a

    def same(self, a, b):
        return self.rep(cellof(a)) is self.rep(cellof(b))

    def vanishes(self, p):
        return scaled(p) in self.known

    # -- ranges and running sums
    def ranges(self):
        """bits[c] = w when 0 <= c < 2^w; z[c, k] = the cell holding c >> 10k"""
        self.bits, self.z = {}, {}
        one = const(1)
        for p in self.polys:
            ms = [m for m in p if m]
            if len(ms) == 2 and () not in p:
                a = [m for m in ms if len(m) == 1]
                b = [m for m in ms if len(m) == 2 and m[0] is m[1]]
                if a and b and a[0][0] is b[0][0] and (p[a[0]] + p[b[0]]) % P == 0:
                    self.narrow(a[0][0], 1)
        seen = set()
        for g in self.gadgets:
            for t in subterms(g):
                if t in seen or t.op != "call":
                    continue
                seen.add(t)
                n = t.a[0]
                if n == "witness_short":
                    w = width(t.a[3])
                    if w is not None:
                        self.narrow(self.rep(t), w)
                elif n == "index" and t.a[2].op == "int":
                    pass
        for t in set(self.put.values()) | {x for g in self.gadgets for x in subterms(g)}:
            if t.op != "index" or t.a[1].op != "int":
                continue
            k, b = t.a[1].a[0], t.a[0]
            if b.op == "call" and b.a[0] == "witness_check":
                n, strict = num(b.a[3]), b.a[4] is TRUE or b.a[4] is I(1)
                z0 = self.rep(index_(b, 0))
                if k <= n:
                    self.z[(z0, k)] = self.rep(t)
                    if strict:
                        self.narrow(self.rep(t), 10 * (n - k))
            elif b.op == "index" and b.a[1].op == "int" and b.a[0].op == "fld" and b.a[0].a[1] == "1":
                ps = pieces(b.a[0].a[0])
                j = b.a[1].a[0]
                if ps is not None and j < len(ps) and pwidth(ps[j]) is not None:
                    w = pwidth(ps[j])
                    self.z[(self.rep(ps[j]), k)] = self.rep(t)
                    self.narrow(self.rep(t), max(w - 10 * k, 0))
        for g in self.gadgets:
            ps = pieces(g)
            for x in ps or ():
                if pwidth(x) is not None:
                    self.narrow(self.rep(x), pwidth(x))

    def narrow(self, c, w):
        self.bits[c] = min(w, self.bits.get(c, w))

    # -- reasoning
    def linear_for(self, c):
        """the polynomials c = sum of coefficient * cell"""
        out = []
        for p in self.polys:
            if (c,) in p and all(len(m) <= 1 for m in p) and () not in p:
                k = (-pow(p[(c,)], P - 2, P)) % P
                out.append({m[0]: v * k % P for m, v in p.items() if m[0] is not c})
        return out

    def split(self, c, w):
        """The contiguous bit ranges [(cell, offset, width)] that cell c (of w bits) is made of, None for zero bits;
        [(c, 0, w)] if it is not divided"""
        for l in self.linear_for(c):
            parts = sorted(((v, x) for x, v in l.items()), key=lambda z: z[0])
            at, out = 0, []
            for v, x in parts:
                b = self.bits.get(x)
                if b is None or v != 1 << at:
                    break
                out.append((x, at, b))
                at += b
            else:
                if at <= w:
                    return out + ([(None, at, w - at)] if at < w else [])
        return [(c, 0, w)]

    def canonical(self, comps):
        """[(cell, offset)] with ranges; 255 bits. True when the integer they spell is always below p."""
        top = max(comps, key=lambda z: z[1])
        if top[1] + self.bits.get(top[0], 999) > 255:
            return False
        if top[1] + self.bits[top[0]] <= 254:
            return True
        if self.bits[top[0]] != 1 or top[1] != 254:
            return False
        b = top[0]
        # suppose b = 1
        zero, lim = set(), {}
        for p in self.polys:
            if len(p) == 1:
                (m, _), = p.items()
                if len(m) == 2 and b in m:
                    zero.add(m[0] if m[1] is b else m[1])
        for (c, k), z in self.z.items():
            if z in zero:
                lim[c] = min(lim.get(c, P), 1 << (10 * k))
        hi = 0
        rest = []
        for c, off in comps:
            if c is b:
                continue
            if c in zero:
                continue
            m = min(lim.get(c, P), 1 << self.bits[c])
            rest.append((c, off, m))
            hi += (m - 1) << off
        want = {c: pow(2, off, P) for c, off, _ in rest}
        best = hi
        for p in self.polys:
            # y = rest + K with y in [0, lim)
            ms = {m[0]: v for m, v in p.items() if len(m) == 1}
            if len(ms) + (() in p) != len(p):
                continue
            for y, v in ms.items():
                if y in want or y not in lim:
                    continue
                k = (-pow(v, P - 2, P)) % P
                if {c: x * k % P for c, x in ms.items() if c is not y} != want:
                    continue
                K = p.get((), 0) * k % P
                # the integer L = sum of rest satisfies L + K = y mod p, 0 <= y < lim[y]
                lo, top_ = (-K) % P, None
                # L in [lo, lo + lim) mod p
                los = lo - P, lo - P + lim[y] - 1
                cand = []
                for base in (los, (lo, lo + lim[y] - 1)):
                    if base[0] <= hi and base[1] >= 0:
                        cand.append(min(base[1], hi))
                best = min(best, max(cand) if cand else 0)
        return (1 << 254) + best < P


def chosen(t):
    return t.op == "call" and len(t.a) > 1 and (isinstance(t.a[1], int) or isinstance(t.a[1], T) and t.a[1].op == "int")


def num(t):
    return t.a[0] if isinstance(t, T) and t.op == "int" else t


def index_(b, k):
    return mk("index", b, I(k))


def cellof(t):
    """without the range that is claimed of it"""
    while t.op == "call" and t.a[0] == "RangeConstrained::unsound_unchecked":
        t = t.a[1]
    return t


def width(r):
    """number of bits of a range term"""
    if r.op == "agg" and len(r.a) >= 5:
        a, b = r.a[-2], r.a[-1]
        if a.op == "int" and b.op == "int":
            return b.a[0] - a.a[0]
    if r.op == "range" and r.a[0].op == "int" and r.a[1].op == "int":
        return r.a[1].a[0] - r.a[0].a[0]
    return None


def subwidth(x):
    if x.op == "call" and x.a[0] == "value":
        return subwidth(x.a[1])
    if x.op == "call" and x.a[0].endswith(("bitrange_of", "unsound_unchecked")):
        return width(x.a[2])
    if x.op == "call" and x.a[0] == "witness_short":
        return width(x.a[3])
    return None


def pwidth(p):
    """bits of a message piece"""
    if p.op == "call" and p.a[0] == "from_subpieces" and is_seq(p.a[2]):
        ws = [subwidth(x) for x in p.a[2].a[3:]]
        if None not in ws and sum(ws) % 10 == 0:
            return sum(ws)
    return None


def is_seq(t):
    return t.op == "agg" and t.a[0] == "array"


def pieces(t):
    """the pieces of the message of a Sinsemilla commitment"""
    if t.op == "call" and t.a[0] in ("CommitDomain::commit", "CommitDomain::short_commit") and len(t.a) >= 3:
        m = t.a[2]
        if m.op == "call" and m.a[0] == "Message::from_pieces":
            return list(m.a[1].a[3:])
    return None
