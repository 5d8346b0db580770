"""Commutative-monoid normal forms for + and the comparison operators."""
from .terms import *
from .ranges import ADTS, interval, lt_const, t_fits, t_ovf, t_abs

ZERO = mk("zero")


def add(*xs):
    c = 0
    saw_int = False
    out = []
    for x in xs:
        ys = x.a if x.op == "add" else (x,)
        for y in ys:
            if y.op == "int":
                c += y.a[0]
                saw_int = True
            elif y is ZERO:
                pass
            else:
                out.append(y)
    # cancel x + neg x
    pos = {}
    for y in out:
        k, s = (y.a[0], -1) if y.op == "neg" else (y, 1)
        pos[k] = pos.get(k, 0) + s
    out = []
    for k in sorted(pos, key=lambda t: t.id):
        n = pos[k]
        out.extend([k] * n if n > 0 else [mk("neg", k)] * -n)
    if c != 0:
        out.append(I(c))
    if not out:
        return I(0) if saw_int or not xs or any(k.op in ("len", "idx", "max", "min") for k in pos) else ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def neg(x):
    if x.op == "case":
        return map_leaves(x, neg)
    if x.op == "neg":
        return x.a[0]
    if x.op == "int":
        return I(-x.a[0])
    if x is ZERO:
        return x
    if x.op == "add":
        return add(*[neg(y) for y in x.a])
    if x.op == "bigsum":
        return mk("neg", x)
    return mk("neg", x)


def bigsum(b, body):
    if body is ZERO or body is FALSE:
        return body
    if body.op == "add":
        return add(*[bigsum(b, y) for y in body.a])
    if body.op == "neg":
        return neg(bigsum(b, body.a[0]))
    if body.op == "int":
        from .seqs import length
        n = length(b)
        if n is not None and n.op == "int":
            return I(n.a[0] * body.a[0])
    return mk("bigsum", b, body)


def lift(f, *xs):
    r = apply(f, xs)
    return r if r is not None else f(*xs)


def t_add(a, b):
    return lift(add, a, b)


def t_sub(a, b):
    return lift(lambda x, y: add(x, neg(y)), a, b)


def t_mul(a, b):
    def f(x, y):
        if x.op == "int" and y.op == "int":
            return I(x.a[0] * y.a[0])
        xs = []
        for z in (x, y):
            xs.extend(z.a if z.op == "mul" else (z,))
        if any(z is ZERO for z in xs):
            return ZERO
        flip = False
        for i, z in enumerate(xs):
            if z.op == "neg" or (z.op == "add" and leads_neg(z)):
                xs[i] = neg(z)
                flip = not flip
        xs.sort(key=lambda t: t.id)
        xs = [z for z in xs if z is not TRUE] or [TRUE]
        r = xs[0] if len(xs) == 1 else mk("mul", *xs)
        return neg(r) if flip else r
    return lift(f, a, b)


def leads_neg(z):
    """of a sum and its negation, one is chosen as the factor; the sign goes outside"""
    xs = [y for y in z.a if y.op != "int"]
    if len(xs) != len(z.a) or not xs:
        return False
    return min(xs, key=lambda y: y.a[0].id if y.op == "neg" else y.id).op == "neg"


def b_not(x):
    return map_leaves(x, lambda l: FALSE if l is TRUE else TRUE if l is FALSE else case(l, [("0", TRUE), ("1", FALSE)]))


def b_and(a, b):
    return guardbool(g_and(asguard(a), asguard(b)))


def b_or(a, b):
    return guardbool(g_or(asguard(a), asguard(b)))


def t_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "int" and y.op == "int":
            return FALSE
        if x.op == "str" and y.op == "str":
            return FALSE
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return FALSE
            r = TRUE
            for p, q in zip(x.a[3:], y.a[3:]):
                r = b_and(r, t_eq(p, q))
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == "agg" and p.a[0] in (OPTION, RESULT) and q.op != "agg":
                if p.a[1] == "None":
                    return case(q, [("None", TRUE), ("Some", FALSE)])
            elif p.op == "agg" and len(p.a) == 3 and q.op not in ("agg", "int", "str") and p.a[0] in ADTS and ADTS[p.a[0]]["enum"]:
                return case(q, [(v["n"], TRUE if v["n"] == p.a[1] else FALSE) for v in ADTS[p.a[0]]["vs"]])
        # bool constants
        for p, q in ((x, y), (y, x)):
            if p is FALSE and q.op == "bin" and q.a[0] == "Shl" and q.a[1] is TRUE:
                return FALSE
            if q.op in BOOL_OPS and p is TRUE:
                return q
            if q.op in BOOL_OPS and p is FALSE:
                return b_not(q)
        for p, q in ((x, y), (y, x)):
            if p is FALSE and q.op == "max" and all((interval(z) or (None,))[0] is not None and interval(z)[0] >= 0 for z in q.a) \
                    and not any(interval(z)[0] > 0 for z in q.a):
                r = TRUE
                for z in q.a:
                    r = b_and(r, t_eq(z, FALSE))
                return r
            if p.op == "int" and q.op not in BOOL_OPS:
                iv = interval(q)
                if iv is not None and ((iv[0] is not None and p.a[0] < iv[0]) or (iv[1] is not None and p.a[0] > iv[1])):
                    return FALSE
        if x.id > y.id:
            x, y = y, x
        return mk("eq", x, y)
    return lift(f, a, b)


register("eq", t_eq)


def t_lt(a, b, unsigned=False):
    def f(x, y):
        if x is y:
            return FALSE
        if x.op == "int" and y.op == "int":
            return TRUE if x.a[0] < y.a[0] else FALSE
        if unsigned:
            if x is FALSE:
                return b_not(t_eq(y, x))
            if y is FALSE:
                return FALSE
            if y is TRUE:
                return t_eq(x, FALSE)
        if x.op == "int":
            return b_not(lt_const(y, x.a[0] + 1))
        if y.op == "int":
            return lt_const(x, y.a[0])
        if x.op == "idx" and y.op == "len" and x.a[0] is y.a[0]:
            return TRUE
        if x.op == "first" and y.op == "len" and x.a[2].op == "idx" and x.a[2].a[0] is x.a[0]:
            from .seqs import length
            if length(x.a[0]) is y:
                return TRUE
        return mk("lt", x, y)
    return lift(f, a, b)


register("lt", t_lt)
register("add", add)
register("neg", neg)
register("bigsum", bigsum)


def t_max(a, b):
    def f(x, y):
        if x is y:
            return x
        if x.op == "int" and y.op == "int":
            return I(max(x.a[0], y.a[0]))
        xs = set()
        for z in (x, y):
            xs |= set(z.a if z.op == "max" else (z,))
        ints = [z.a[0] for z in xs if z.op == "int"]
        rest = sorted([z for z in xs if z.op != "int"], key=lambda t: t.id)
        if ints:
            m = max(ints)
            if m > 0 or not any(z.op == "len" for z in rest):
                rest.append(I(m))
            if len(rest) == 1:
                return rest[0]
        return mk("max", *rest)
    return lift(f, a, b)


def t_min(a, b):
    def f(x, y):
        if x is y:
            return x
        if x.op == "int" and y.op == "int":
            return I(min(x.a[0], y.a[0]))
        if x.id > y.id:
            x, y = y, x
        return mk("min", x, y)
    return lift(f, a, b)


def _many(f):
    def g(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


register("mul", _many(t_mul))
register("max", _many(t_max))
register("min", _many(t_min))
HOOK["max"] = t_max
HOOK["min"] = t_min
