"""Sequences and byte arrays as terms.

A sequence value (vector, slice, iterator, NonEmpty) is any term; its structured forms are
  array agg            a literal list
  map(b, body)         one element `body` per element of base b; body mentions elem(b) / idx(b)
  filt(b, cond, body)  the same for the elements where cond holds
  take/skip/rev/perm/chain/flat/concat/zip/range/repeatw ...
All per-element terms are functions of the implicit position in the base, so zipped or repeated
traversals of one base line up by themselves.
"""
import re
from .terms import *


def arr(*vals):
    return agg("array", "", tuple(str(i) for i in range(len(vals))), *vals)


def is_arr(t):
    return t.op == "agg" and t.a[0] == "array"


def base(s):
    if s.op == "map":
        return s.a[0]
    if s.op == "filt":
        return s  # its own index space
    return s


def elem(s):
    if s.op == "case":
        return map_leaves(s, elem)
    if s.op == "map":
        return s.a[1]
    if s.op == "filt":
        return s.a[2]
    if s.op == "take":
        return elem(s.a[0])
    if s.op == "segs" or s.op == "bytes":
        return mk("elem", s)
    if s.op == "repeat":
        return s.a[0]
    if s.op == "repeatw":
        return s.a[0]
    if s.op == "zip":
        return tup(*[elem(x) for x in s.a])
    if s.op == "concat" and len(s.a) == 1:
        return elem(s.a[0])
    if s.op in ("slice", "skip", "rev") and s.a[0].op in ("map", "take", "slice", "skip", "rev"):
        x = elem(s.a[0])
        if x.op == "ref":
            return x
    return mk("elem", s)


def idx(b):
    if b.op == "case":
        return map_leaves(b, idx)
    if b.op == "take":
        return idx(b.a[0])
    return mk("idx", b)


def smap(b, body):
    """Sequence with one `body` per element of index space b."""
    if b is BOT or body is BOT and False:
        return BOT
    if b.op == "case":
        return map_leaves(b, lambda x: smap(x, body))
    if b.op != "filt" and b.op != "map" and body is elem(b):
        return b
    if body.op == "elem" and b.op in ("repeat", "range", "agg") and body.a[0].op in ("agg", "bytes", "slice"):
        n = known_len(b)
        if n is not None and n == known_len(body.a[0]):
            return body.a[0]
    if b.op == "filt":
        return mk("filt", b.a[0], b.a[1], body)
    if b.op == "map":
        return smap(b.a[0], body)
    return mk("map", b, body)


def ispace(s):
    """The index space of a sequence: what elem()/idx() range over."""
    if s.op == "map":
        return s.a[0]
    return s


ARRAYTY = re.compile(r"^\[.*; (\d+)\]$")
LEN = {}     # term -> array length known from its type


KEEPS = {"RngCore::fill_bytes", "Read::read_exact", "AeadInPlace::encrypt_in_place_detached", "AeadInPlace::decrypt_in_place_detached"}


def length(s):
    if s.op == "case":
        return map_leaves(s, length)
    if s in LEN:
        return I(LEN[s])
    if s.op in ("fld", "index", "elem"):
        from .ranges import typeof
        m = ARRAYTY.match(typeof(s))
        if m:
            LEN[s] = int(m.group(1))
            return I(LEN[s])
    if is_arr(s):
        return I(len(s.a) - 3)
    if s.op == "map":
        return length(s.a[0])
    if s.op == "perm" or s.op == "rev":
        return length(s.a[0])
    if s.op == "segs":
        return I(s.a[0]) if isinstance(s.a[0], int) else mk("len", s)
    if s.op == "bytes":
        return I(len(s.a[0]) // 2 // s.a[1])
    if s.op == "repeat":
        return s.a[1] if isinstance(s.a[1], T) else mk("len", s)
    if s.op == "slice":
        lo, hi = s.a[1], s.a[2]
        if lo.op == "int" and hi.op == "int":
            return I(hi.a[0] - lo.a[0])
        if lo.op == "int" and hi.op == "end":
            from .arith import add, neg
            return add(length(s.a[0]), neg(lo))
    if s.op == "str":
        return I(len(s.a[0].encode()))
    if s.op == "zip":
        ls = []
        for x in s.a:
            l = length(x)
            if l not in ls:
                ls.append(l)
        if len(ls) == 1:
            return ls[0]
        if any(l is FALSE for l in ls):
            return FALSE
    if s.op == "range" and s.a[0] is FALSE:
        return s.a[1]
    if s.op == "range" and s.a[0].op not in ("int", "case") and s.a[1].op != "case":
        from .arith import add, neg, t_max
        return add(t_max(s.a[0], s.a[1]), neg(s.a[0]))
    if s.op == "concat":
        parts = [length(x) for x in s.a]
        from .arith import add
        return add(*parts)
    if s.op == "repeatw" and s.a[1] is not UNIT:
        return s.a[1]
    if s.op == "take":
        if infinite(s.a[0]):
            return s.a[1]
        from .arith import t_min
        return t_min(s.a[1], length(s.a[0]))
    if s.op == "upd":
        return length(s.a[0])
    if s.op == "pre" and s.a[1].op == "map" and s.a[1].a[0] is s.a[0]:
        return idx(s.a[0])
    if s.op == "fold" and s.a[2].op == "upd":
        # element writes keep the length
        x = s.a[2]
        while x.op == "upd":
            x = x.a[0]
        if x.op == "acc":
            return length(s.a[1])
    if s.op == "call" and s.a[0] == "blake2b::finalize":
        x = s.a[1]
        while x.op == "absorb":
            x = x.a[0]
        if x.op == "call" and x.a[0] == "blake2b" and x.a[1].op == "int":
            return x.a[1]
    if s.op == "mut" and s.a[0].split("@")[0] in KEEPS:
        # a function that is given a slice cannot change its length
        x = s.a[2] if len(s.a) > 2 else s
        x = x.a[3:] if x.op == "rand" else s.a[2:]
        if s.a[1] < len(x):
            n = length(x[s.a[1]])
            if n.op == "int":
                return n
    if s.op == "fold" and length(s.a[2]) is mk("len", mk("accv", s.a[0])):
        return length(s.a[1])
    if s.op == "fld":
        # a part of the state of a loop that no step makes longer or shorter
        x, path = s, []
        while x.op in ("fld", "as"):
            path.append((x.op, x.a[1]))
            x = x.a[0]
        if x.op == "pre":
            b, x = x.a
            for op, k in path[::-1]:
                x = rebuild(op, [x, k])
            n = length(x)
            if n.op != "case" and not contains(n, lambda z: z is b or z.op in ("elem", "idx", "accv") and z.a[0] is b or z is x):
                return n
    if s.op == "fold" and s.a[2].op in ("concat", "upd", "accv"):
        # a fixed number of elements is put in each time
        from .arith import add, neg
        k = add(length(s.a[2]), neg(mk("len", mk("accv", s.a[0]))))
        if k is FALSE:
            return length(s.a[1])
        n = length(s.a[0])
        if k.op == "int" and k.a[0] > 0 and n.op == "int":
            return add(length(s.a[1]), I(k.a[0] * n.a[0]))
    return mk("len", s)


def infinite(s):
    return (s.op == "repeatw" and s.a[1] is UNIT) or (s.op in ("map", "perm", "skip") and infinite(s.a[0])) or \
        (s.op == "concat" and any(infinite(x) for x in s.a)) or (s.op == "zip" and all(infinite(x) for x in s.a))


def rangeseq(lo, hi):
    """lo..hi; the positions of X when it is 0..X.len()."""
    if lo is FALSE and hi.op == "len":
        x = ispace(hi.a[0])
        return smap(x, idx(x))
    return mk("range", lo, hi)


def zipseq(a, b):
    ia, ib = ispace(a), ispace(b)
    if ia is ib:
        return smap(ia, tup(elem(a), elem(b)))
    sp = []
    for x in (ia, ib):
        for y in (x.a if x.op == "zip" else (x,)):
            if y not in sp:
                sp.append(y)
    sp.sort(key=lambda t: t.id)
    z = mk("zip", *sp)
    return mk("map", z, tup(elem(a), elem(b)))


def rebuild_map(b, body):
    return smap(b, body)


register("map", rebuild_map)
register("elem", elem)
register("idx", idx)
register("len", length)


def concat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "concat" else (p,)
        for q in ps:
            if is_arr(q):
                if len(q.a) == 3:
                    continue
                if out and is_arr(out[-1]):
                    out[-1] = arr(*(out[-1].a[3:] + q.a[3:]))
                    continue
            out.append(q)
    if not out:
        return arr()
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


register("concat", concat)


def push(s, x):
    if s.op == "case":
        return map_leaves(s, lambda l: push(l, x))
    return concat(s, arr(x))


def take(s, n):
    if s.op == "map":
        return smap(take(s.a[0], n), s.a[1])
    if n.op == "int" and s.op in ("sym", "index", "slice", "fld", "elem", "as", "call"):
        k = known_len(s)
        if k is not None:
            return slc(s, FALSE, I(min(k, n.a[0]))) if n.a[0] < k else s
    return mk("take", s, n)


register("take", take)

# ------------------------------------------------------------------ byte arrays


def one_of(v):
    """(sequence, position) if v is a value at a literal position of a sequence"""
    x = v.a[0] if v.op == "el" else v
    return (x.a[0], x.a[1].a[0]) if x.op == "index" and x.a[1].op == "int" else (None, None)


def runs(vals):
    """values with successive positions of one sequence among them, as slices of it"""
    out, i = [], 0
    while i < len(vals):
        src, k = one_of(vals[i])
        j = i + 1
        while src is not None and j < len(vals) and one_of(vals[j]) == (src, k + j - i):
            j += 1
        out.append(slc(src, I(k), I(k + j - i)) if j > i + 1 else arr(vals[i]))
        i = j
    return concat(*out)


def segs(n, base, parts):
    """parts: list of (lo, hi, val) sorted and disjoint; n int; base: value of the rest."""
    parts = [q for lo, hi, v in parts for q in ([(lo + l, lo + h, w) for l, h, w in seg_parts(v)]
                                                if v.op == "segs" and v.a[0] == hi - lo and v.a[1] is UNIT else [(lo, hi, v)])]
    parts = sorted([p for p in parts if p[0] < p[1]], key=lambda p: p[0])
    # merge adjacent slices of one value
    out = []
    for lo, hi, v in parts:
        if out:
            l0, h0, v0 = out[-1]
            if h0 == lo and v.op == "el":
                src, k = one_of(v)
                if src is not None and v0.op == "el":
                    s0, k0 = one_of(v0)
                    if s0 is src and k == k0 + 1:
                        out[-1] = (l0, hi, slc(src, I(k0), I(k + 1)))
                        continue
                elif src is not None and v0.op == "slice" and v0.a[0] is src and v0.a[2] is I(k):
                    out[-1] = (l0, hi, slc(src, v0.a[1], I(k + 1)))
                    continue
            if h0 == lo and v0.op == "slice" and v.op == "slice" and v0.a[0] is v.a[0] and v0.a[2] is v.a[1]:
                out[-1] = (l0, hi, slc(v.a[0], v0.a[1], v.a[2]))
                continue
        out.append((lo, hi, v))
    if len(out) == 1 and isinstance(n, int) and out[0][0] == 0 and out[0][1] == n and out[0][2].op != "el":
        return out[0][2]
    covered = sum(h - l for l, h, _ in out)
    if isinstance(n, int) and covered == n:
        base = UNIT
    return mk("segs", n, base, tuple((l, h) for l, h, _ in out), *[v for _, _, v in out])


def _rb_segs(n, base, bounds, *vals):
    return segs(n, base, [(l, h, v) for (l, h), v in zip(bounds, vals)])


register("segs", _rb_segs)


def seg_parts(t):
    return [(l, h, v) for (l, h), v in zip(t.a[2], t.a[3:])]


def known_len(t):
    l = length(t)
    return l.a[0] if l.op == "int" else None


def slc(t, lo, hi):
    """t[lo..hi]; lo term; hi term or None for 'to the end'."""
    if t.op == "case":
        return map_leaves(t, lambda x: slc(x, lo, hi))
    n = known_len(t)
    if hi is None:
        hi = I(n) if n is not None else mk("len", t) if lo is FALSE else mk("end")
    if lo is FALSE and (hi is mk("len", t) or (hi.op == "int" and n is not None and hi.a[0] == n) or hi.op == "end"):
        return t
    if lo.op == "int" and (hi.op == "int" or hi.op == "end"):
        l = lo.a[0]
        h = hi.a[0] if hi.op == "int" else None
        if t.op == "slice" and t.a[1].op == "int":
            l0 = t.a[1].a[0]
            if h is not None:
                return slc(t.a[0], I(l0 + l), I(l0 + h))
            return slc(t.a[0], I(l0 + l), t.a[2])
        if h is not None:
            if t.op == "segs":
                ps = seg_parts(t)
                for pl, ph, v in ps:
                    if v.op != "el" and pl <= l and h <= ph:
                        return slc(v, I(l - pl), I(h - pl)) if (l, h) != (pl, ph) else v
                sub = []
                okk = True
                for pl, ph, v in ps:
                    if ph <= l or pl >= h:
                        continue
                    a, b = max(pl, l), min(ph, h)
                    vv = v if v.op == "el" or (a, b) == (pl, ph) else slc(v, I(a - pl), I(b - pl))
                    sub.append((a - l, b - l, vv))
                if okk:
                    bs = t.a[1]
                    if bs is not UNIT and sum(b - a for a, b, _ in sub) < h - l:
                        bs = slc(bs, I(l), I(h))
                    if not sub:
                        return bs
                    return segs(h - l, bs, sub)
            if is_arr(t) and h <= len(t.a) - 3:
                return arr(*t.a[3 + l:3 + h])
            if t.op == "bytes":
                es = t.a[1]
                return mk("bytes", t.a[0][2 * es * l:2 * es * h], es)
            if t.op == "repeat":
                return mk("repeat", t.a[0], I(h - l))
            if t.op == "concat":
                r = slc_concat(t, l, h)
                if r is not None:
                    return r
        elif t.op == "concat":
            k = known_len(t.a[0])
            if k is not None and k <= l:
                rest = t.a[1] if len(t.a) == 2 else mk("concat", *t.a[1:])
                return slc(rest, I(l - k), None)
    return mk("slice", t, lo, hi)


def slc_concat(t, l, h):
    """the parts between l and h, when the lengths before h are known"""
    out, p = [], 0
    for x in t.a:
        if p >= h:
            break
        k = known_len(x)
        if k is None:
            return None
        a, b = max(p, l), min(p + k, h)
        if a < b:
            out.append(x if (a, b) == (p, p + k) else slc(x, I(a - p), I(b - p)))
        p += k
    return concat(*out) if p >= h else None


register("slice", lambda t, lo, hi: slc(t, lo, hi if hi.op != "end" else None))


def t_skip(s, n):
    if s.op == "case":
        return map_leaves(s, lambda x: t_skip(x, n))
    if n is I(0):
        return s
    if s.op == "skip":
        from .arith import add
        return t_skip(s.a[0], add(s.a[1], n))
    if n.op == "int" and is_arr(s):
        return arr(*s.a[3 + n.a[0]:])
    return mk("skip", s, n)


register("skip", t_skip)


def t_next(s):
    """What an iterator over s gives next (an option)."""
    if s.op == "case":
        return map_leaves(s, t_next)
    if s.op in ("acc", "accv"):
        return mk("next", s)
    if is_arr(s):
        return some(s.a[3]) if len(s.a) > 3 else NONE
    from .arith import t_eq, t_lt
    if s.op == "skip":
        q, n = s.a
        if q.op in ("acc", "accv") or n.op == "pre" and contains(n.a[1], lambda x: x.op == "acc"):
            return mk("next", s)
        if q.op == "filt" and n.op == "pre" and n.a[0] is q.a[0] and n.a[1].op == "bigsum" and n.a[1].a[0] is q.a[0] \
                and asguard(q.a[1]) is asguard(n.a[1].a[1]):
            # as many were taken as qualified before: this element's own entry, if it qualifies
            return ite(asguard(q.a[1]), some(q.a[2]), mk("next", s))
        if n.op == "idx":
            b = n.a[0]
            if ispace(q) is b or b.op == "range" and b.a[0] is I(0) and b.a[1] is length(q) or length(b) is length(q):
                return some(index(q, n))
        return case(t_lt(n, length(q)), [("0", NONE), ("1", some(index(q, n)))])
    return case(t_eq(length(s), I(0)), [("1", NONE), ("0", some(index(s, I(0))))])


register("next", t_next)


def t_pre(b, w):
    """A fold over b, taken only over the elements before the current one."""
    from .arith import add
    if w.op == "skip" and not contains(w.a[0], lambda x: x.op in ("fold", "bigsum") and x.a[0] is b):
        return t_skip(w.a[0], t_pre(b, w.a[1]))
    if w.op in ("add", "neg"):
        from .arith import neg
        out = []
        for x in (w.a if w.op == "add" else (w,)):
            y = x.a[0] if x.op == "neg" else x
            if y.op == "bigsum" and y.a[0] is b:
                y = t_pre(b, y)
            elif contains(y, lambda z: z is b or z.op in ("elem", "idx") and z.a[0] is b):
                return mk("pre", b, w)
            out.append(neg(y) if x.op == "neg" else y)
        return add(*out)
    if w.op == "bigsum" and w.a[0] is b and w.a[1] is I(1):
        return idx(b)
    if w.op == "concat" and w.a[-1].op in ("map", "flat", "filt") and w.a[-1].a[0] is b and \
            not any(contains(y, lambda z: z is b or z.op in ("elem", "idx") and z.a[0] is b) for y in w.a[:-1]):
        return concat(*w.a[:-1], mk("pre", b, w.a[-1]))
    if w.op == "len" and w.a[0] is b:
        return idx(b)
    return mk("pre", b, w)


register("pre", t_pre)


def index(t, i):
    if t.op == "case":
        return map_leaves(t, lambda x: index(x, i))
    if i.op == "case":
        return map_leaves(i, lambda x: index(t, x))
    if i.op == "int":
        k = i.a[0]
        if is_arr(t) and k < len(t.a) - 3:
            return t.a[3 + k]
        if t.op == "segs":
            for pl, ph, v in seg_parts(t):
                if pl <= k < ph:
                    return v.a[0] if v.op == "el" else index(v, I(k - pl))
            if t.a[1] is not UNIT:
                return index(t.a[1], i)
        if t.op == "slice" and t.a[1].op == "int":
            return index(t.a[0], I(t.a[1].a[0] + k))
        if t.op == "bytes":
            es = t.a[1]
            b = bytes.fromhex(t.a[0])[es * k:es * k + es]
            if len(b) == es:
                return I(int.from_bytes(b, "little"))
    if t.op == "repeat":
        return t.a[0]
    if t.op == "upd" and t.a[1] == ("i",):
        if t.a[2] is i:
            return t.a[3]
    if i.op == "idx":
        sp = i.a[0]
        if ispace(t) is sp:
            return elem(t)
        if sp.op == "range" and sp.a[0] is FALSE and sp.a[1] is length(t):
            return elem(t)
    if i.op == "elem" and i.a[0].op == "range" and i.a[0].a[0] is FALSE and i.a[0].a[1] is length(t):
        return elem(t) if True else None
    if t.op == "map":
        b = t.a[0]
        eb = elem(b)
        return subst(t.a[1], {eb: index(b, i), mk("idx", b): i})
    return mk("index", t, i)


register("index", index)


def at(b, i, body, acc=None):
    """body (a function of the position in b) at literal position i"""
    m = {}
    k = i if isinstance(i, T) else I(i)
    for x in (b.a if b.op == "zip" else (b,)):
        if x.op == "range":
            from .arith import add
            m[mk("elem", x)] = add(x.a[0], k)
        else:
            m[mk("elem", x)] = index(x, k)
        m[mk("idx", x)] = k
    m[mk("idx", b)] = k
    if acc is not None:
        m[mk("accv", b)] = acc
    for x in subterms(body):
        if x.op == "pre" and x.a[0] is b:
            m[x] = mk("preat", x.a[1], k)
    return subst(body, m)


def literalize(s, limit=64):
    """the sequence as a literal list, if its length is a literal"""
    if is_arr(s):
        return s
    n = known_len(s)
    if n is None or n > limit or contains(s, lambda x: x.op == "ref"):
        return None
    b = ispace(s)
    if b.op not in ("zip", "sym", "fld", "range", "bytes", "agg", "call", "as", "mut", "rand", "repeat", "elem", "index"):
        return None
    e = elem(s)
    return arr(*[at(b, i, e) for i in range(n)])

register("any", lambda b, g: FALSE if g is FALSE else mk("any", b, g))
