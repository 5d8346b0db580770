"""Semantics of the library operations the analysis understands (everything else stays opaque)."""
import re
from .terms import *
from .arith import *
from .ranges import t_fits, t_ovf, t_abs
from .seqs import *
from . import seqs
from .mir import peel

MODELS = {}


def model(*names, always=False):
    def d(fn):
        fn.always = always
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def A(I_, st, args, i):
    """Argument value behind references."""
    return I_.val(st, args[i][0])


def lref(I_, v):
    return v if v.op == "ref" else None


def dty(t):
    return t.get("dty", "")


def cell_update(I_, st, ref, new):
    """Writes through a (possibly conditional) reference."""
    st = dict(st)
    if ref.op == "ref":
        r = ref
        # follow reference chains to the place that owns the value
        n = 0
        while n < 20:
            v = I_.read(st, r.a[0], r.a[1])
            if v.op == "ref":
                r = v
                n += 1
            else:
                break
        I_.write(st, ("loc", r.a[0], r.a[1]), new)
    elif ref.op == "case":
        from .interp import guards_of
        for g, l in guards_of(ref):
            if l.op == "ref":
                old = I_.read(st, l.a[0], l.a[1])
                I_.write(st, ("loc", l.a[0], l.a[1]), ite(g, new, old))
    return st


def owner_ref(I_, st, r):
    n = 0
    while r.op == "ref" and n < 20:
        v = I_.read(st, r.a[0], r.a[1])
        if v.op != "ref":
            return r
        r = v
        n += 1
    return r


# ------------------------------------------------------------------ sequences from values

def toseq(I_, v):
    if v.op == "case":
        return map_leaves(v, lambda l: toseq(I_, l))
    if v.op == "agg":
        k = v.a[0]
        if k.endswith("ops::Range") and v.a[2] == ("start", "end"):
            return rangeseq(v.a[3], v.a[4])
        if k.endswith("ops::RangeFrom"):
            return mk("rangefrom", v.a[3])
        if k == "rangeincl":
            return rangeseq(v.a[3], t_add(v.a[4], I(1)))
        if k == OPTION:
            return arr(*v.a[3:])
    return v


OPT_TY = re.compile(r"(std|core)::option::(Option|IntoIter|Iter)<")


def toseq_ty(I_, v, ty):
    ty = peel(ty)
    if OPT_TY.match(ty) and not (v.op == "agg"):
        return opt_seq(I_, v)
    return toseq(I_, v)


def opt_seq(I_, v):
    if v.op == "case":
        return map_leaves(v, lambda l: opt_seq(I_, l))
    if v.op == "agg":
        return arr(*v.a[3:])
    return case(v, [("None", arr()), ("Some", arr(I_.payload(v, "Some")))])


def seq_each(I_, st, s, fn):
    r, st = I_.each(st, s, fn)
    return r, st


# ------------------------------------------------------------------ transparent operations

@model("Clone::clone", "Deref::deref", "Borrow::borrow", "ToOwned::to_owned", "slice::to_vec",
       "slice::into_vec", "Vec::as_slice", "Vec::into_boxed_slice", "slice::iter", "NonEmpty::iter", "Box::new", "Iterator::by_ref", "Iterator::copied",
       "Iterator::cloned", "Iterator::fuse", "Hash::as_bytes", "Hash::as_array", "hint::must_use", "slice::as_ref",
       "slice::into_iter", "Vec::into_iter", "array::as_slice", "hint::black_box", "black_box", "Iterator::peekable", "Cow::into_owned",
       "Option::copied", "Option::cloned", "BitVec::iter", "array::each_ref", "Option::as_deref", "Arc::new", "Rc::new", "Iter::by_vals", "Iter::as_slice", "WnafBase::new", "WnafScalar::new", "BitSlice<T, O>>::iter", "BitArray::into_inner")
def m_transparent(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    return v, st


@model("Box::new_uninit")
def m_new_uninit(I_, st, f, args, t):
    return mk("uninit"), st


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def m_assume_init(I_, st, f, args, t):
    return A(I_, st, args, 0), st


@model("IntoIterator::into_iter")
def m_into_iter(I_, st, f, args, t):
    ty = args[0][2]
    r = args[0][0]
    if r.op == "ref" and args[0][1]:
        v = I_.val(st, r)
        if "NonEmpty" in ty or "Vec<" in ty or re.match(r"&.*mut \[", ty):
            return iter_mut(I_, st, owner_ref(I_, st, r))
        return r, st      # &mut Iterator
    return toseq_ty(I_, I_.val(st, r), ty), st


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "slice::as_mut", "Option::as_mut_seq")
def m_reborrow(I_, st, f, args, t):
    return args[0][0], st


@model("Into::into", "From::from")
def m_into(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    src = peel(args[0][2])
    dst = peel(dty(t))
    v = A(I_, st, args, 0)
    if src == dst:
        return v, st
    if is_intty(src) and is_intty(dst):
        return I_.cast(v, src, dst), st
    if src == "bool" and is_intty(dst):
        return I_.cast(v, src, dst), st
    if "subtle::CtOption" in src and "option::Option" in dst:
        return v, st
    if src == "subtle::Choice" and dst == "bool":
        return v, st
    if dst == "subtle::Choice" and src == "u8":
        return truth(v), st
    if "Vec<" in dst and ("NonEmpty" in src or src.startswith("[") or "Vec<" in src or "Box<[" in src):
        return v, st
    if "Box<[" in dst or dst.startswith("std::boxed::Box<"):
        return v, st
    if re.match(r"pasta_curves::F[pq]$", src) and dst == "[u8; 32]":
        r = mk("call", "PrimeField::to_repr@%s" % src, v)
        LEN[r] = 32
        return r, st
    if "option::Option" in dst and dst.endswith("Option<%s>" % src):
        return some(v), st
    if "generic_array::GenericArray" in dst and src.startswith("["):
        return v, st
    if src.endswith("incrementalmerkletree::Level") and is_intty(dst) or dst.endswith("incrementalmerkletree::Level") and is_intty(src):
        return v, st
    if (src.startswith("[") or src == "[u8]") and dst.startswith("["):
        return v, st
    return None


def truth(v):
    """u8 in {0,1} -> bool"""
    def lf(x):
        if x.op == "cast" and False:
            return x
        if x.op == "int":
            return TRUE if x.a[0] else FALSE
        if x.op in BOOL_OPS:
            return x
        return b_not(t_eq(x, I(0)))
    return map_leaves(v, lf)


INT = re.compile(r"^[iu](8|16|32|64|128|size)$")


def is_intty(t):
    return bool(INT.match(t))


@model("AsRef::as_ref", "Option::as_ref")
def m_as_ref(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    if args[0][2] and re.search(r"::(EphemeralKeyBytes|OutgoingCipherKey)$", peel(args[0][2])):
        from .interp import _fld
        v = _fld(v, "0")        # foreign newtypes over a byte array
    return v, st


# ------------------------------------------------------------------ iterators

@model("Iterator::map", "NonEmpty::map", "array::map", "Iterator::inspect")
def m_map(I_, st, f, args, t):
    s = toseq_ty(I_, I_.val(st, args[0][0]), args[0][2]) if args[0][0].op == "ref" else toseq_ty(I_, args[0][0], args[0][2])
    fv = args[1][0]
    r, st = I_.each(st, s, lambda s2, x: I_.apply(fv, [x], s2, t))
    return I_.seqof(r), st


def enumerate_seq(s, start=0):
    if s.op == "case":
        return map_leaves(s, enumerate_seq)
    if is_arr(s):
        return arr(*[tup(I(i), x) for i, x in enumerate(s.a[3:])])
    b = ispace(s)
    return smap(b, tup(idx(b), elem(s)))


@model("Iterator::enumerate")
def m_enumerate(I_, st, f, args, t):
    return enumerate_seq(toseq_ty(I_, A(I_, st, args, 0), args[0][2])), st


@model("Iterator::zip", "iter::zip")
def m_zip(I_, st, f, args, t):
    a = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    b = toseq_ty(I_, A(I_, st, args, 1), args[1][2])

    def z(x, y):
        if is_arr(x) and is_arr(y):
            return arr(*[tup(p, q) for p, q in zip(x.a[3:], y.a[3:])])
        if is_arr(x) and y.op == "rangefrom" and y.a[0].op == "int":
            return arr(*[tup(p, I(y.a[0].a[0] + i)) for i, p in enumerate(x.a[3:])])
        if y.op == "rangefrom" and y.a[0] is FALSE:
            bb = ispace(x)
            return smap(bb, tup(elem(x), idx(bb)))
        if x.op == "rangefrom" and x.a[0] is FALSE:
            bb = ispace(y)
            return smap(bb, tup(idx(bb), elem(y)))
        return zipseq(x, y)
    return lift(z, a, b), st


@model("Iterator::chain")
def m_chain(I_, st, f, args, t):
    a = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    b = toseq_ty(I_, A(I_, st, args, 1), args[1][2])
    return lift(concat, a, b), st


@model("Iterator::take")
def m_take(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    n = args[1][0]

    def tk(s, n):
        if is_arr(s) and n.op == "int":
            return arr(*s.a[3:3 + n.a[0]])
        if s.op == "repeat":
            return mk("repeat", s.a[0], n)
        if s.op == "repeatw" and s.a[1] is UNIT:
            return mk("repeatw", s.a[0], n)
        if s.op == "rangefrom":
            return mk("range", s.a[0], t_add(s.a[0], n))
        if s.op == "concat":
            # x ++ (infinite): the part taken from the tail is what is missing
            pass
        return take(s, n)
    return lift(tk, s, n), st


@model("Iterator::skip")
def m_skip(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    n = args[1][0]
    return lift(lambda s, n: slc(s, n, None), s, n), st


@model("Iterator::rev")
def m_rev(I_, st, f, args, t):
    return t_rev(toseq_ty(I_, A(I_, st, args, 0), args[0][2])), st


def t_rev(s):
    def rv(s):
        if is_arr(s):
            return arr(*reversed(s.a[3:]))
        if s.op == "rev":
            return s.a[0]
        if s.op == "repeat":
            return s
        if s.op == "map" and s.a[0].op == "rev":
            from .interp import mentions_any
            v = subst(s.a[1], {elem(s.a[0]): elem(s.a[0].a[0])})
            if not mentions_any(v, s.a[0]):
                return smap(s.a[0].a[0], v)
        return mk("rev", s)
    return map_leaves(s, rv)


@model("slice::reverse")
def m_reverse(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    return UNIT, cell_update(I_, st, ref, t_rev(toseq(I_, I_.read(st, ref.a[0], ref.a[1]))))


def condseq(g, x):
    """A sequence holding x when g."""
    return case(g, [("1", arr(x)), ("0", arr())]) if g not in (TRUE, FALSE) else (arr(x) if g is TRUE else arr())


def lconcat(a, b):
    return lift(concat, a, b)


@model("Iterator::step_by")
def m_step_by(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    k = A(I_, st, args, 1)
    if k.op != "int" or k.a[0] < 1 or s.op == "case" or I_.itermuts(s) and is_arr(s):
        return None
    if k.a[0] == 1:
        return s, st
    if is_arr(s):
        return arr(*s.a[3::k.a[0]]), st
    b = ispace(s)
    return mkfilt(b, asguard(t_eq(FALSE, mk("bin", "Rem", idx(b), k) if k.a[0] != 2 else bitset(idx(b), FALSE))), elem(s)), st


@model("Iterator::filter")
def m_filter(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    fv = args[1][0]
    r, st = I_.each(st, s, lambda s2, x: _pair(I_.apply(fv, [x], s2, t), x))
    return filt_result(I_, r, lambda v: (v.a[3], v.a[4])), st


def _pair(vs, x):
    v, st = vs
    return (tup(v, x) if v is not BOT else BOT), st


def filt_result(I_, r, split):
    if r[0] == "list":
        out = arr()
        for v in r[1]:
            g, x = split(v)
            out = lconcat(out, condseq(g, x))
        return out
    if r[0] == "bot":
        return BOT
    if r[0] == "seq":
        return mk("filtseq", r[1])
    g, x = split(r[2])
    return mkfilt(r[1], g, x)


def mkfilt(b, g, x):
    if g is TRUE:
        return smap(b, x)
    if g is FALSE:
        return arr()
    if b.op == "filt":
        return mk("filt", b.a[0], b_and(b.a[1], g), x)
    return mk("filt", b, g, x)


@model("Iterator::filter_map")
def m_filter_map(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    fv = args[1][0]
    r, st = I_.each(st, s, lambda s2, x: I_.apply(fv, [x], s2, t))
    if r[0] == "seq":
        return map_leaves(r[1], lambda q: flatten_opt(I_, q)), st
    return filt_result(I_, r, lambda v: (guardbool(I_.isvar(v, "Some")), I_.payload(v, "Some"))), st


def flatten_opt(I_, q):
    """Sequence of Options -> sequence of their payloads."""
    if q.op == "concat":
        return concat(*[flatten_opt(I_, x) for x in q.a])
    if is_arr(q):
        out = arr()
        for v in q.a[3:]:
            out = lconcat(out, condseq(guardbool(I_.isvar(v, "Some")), I_.payload(v, "Some")))
        return out
    e = elem(q)
    return mkfilt(ispace(q), guardbool(I_.isvar(e, "Some")), I_.payload(e, "Some"))


@model("Iterator::flatten")
def m_flatten(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    if "option::Option" in dty(t) and not is_arr(s):
        return map_leaves(s, lambda q: flatten_opt(I_, q)), st
    r, st = I_.each(st, s, lambda s2, x: (toseq_ty(I_, I_.val(s2, x), ""), s2))
    return flat_result(r), st


def flat_result(r):
    if r[0] == "list":
        out = arr()
        for v in r[1]:
            out = lconcat(out, v)
        return out
    if r[0] == "bot":
        return BOT
    if r[0] == "seq":
        return mk("flatseq", r[1])
    return mk("flat", r[1], r[2])


@model("Iterator::flat_map")
def m_flat_map(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    fv = args[1][0]

    def go(s2, x):
        v, s3 = I_.apply(fv, [x], s2, t)
        return (toseq(I_, I_.val(s3, v)) if v is not BOT else BOT), s3
    r, st = I_.each(st, s, go)
    return flat_result(r), st


@model("Iterator::fold")
def m_fold(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    return do_fold(I_, st, s, args[1][0], args[2][0], t)


def do_fold(I_, st, s, init, fv, t):
    c = I_.newcell()
    st = dict(st)
    st[c] = init

    def go(s2, x):
        v, s3 = I_.apply(fv, [s2[c], x], s2, t)
        s3 = dict(s3)
        s3[c] = v
        return UNIT, s3
    r, st = I_.each(st, s, go)
    return st[c], st


@model("Iterator::scan")
def m_scan(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    lit = literalize(s)
    if lit is None:
        return None
    c = I_.newcell()
    st = dict(st)
    st[c] = I_.deep(st, args[1][0])
    out = []
    for x in lit.a[3:]:
        v, st = I_.apply(args[2][0], [mk("ref", c, ()), x], st, t)
        v = I_.deep(st, v)
        if is_agg(v, None, "None"):
            break
        if not is_agg(v, None, "Some"):
            return None
        out.append(v.a[3])
    return arr(*out), st


@model("Iterator::try_fold", "Iterator::try_for_each")
def m_try_fold(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    d = dty(t)
    isopt = "option::Option" in d[:30]
    okl, bad = ("Some", "None") if isopt else ("Ok", "Err")
    wrap = some if isopt else ok
    foreach = f["m"] == "try_for_each"
    init = UNIT if foreach else args[1][0]
    fv = args[1][0] if foreach else args[2][0]
    c = I_.newcell()
    st = dict(st)
    st[c] = wrap(init)

    def go(s2, x):
        cur = s2[c]
        g = I_.isvar(cur, okl)
        if g is FALSE:
            return UNIT, s2
        p = I_.payload(cur, okl)
        I_.gstack.append(g)
        try:
            v, s3 = I_.apply(fv, [x] if foreach else [p, x], s2, t)
        finally:
            I_.gstack.pop()
        if g is not TRUE:
            _, s3 = I_.merge([(g, s3), (g_not(g), s2)])
        s3 = dict(s3)
        s3[c] = ite(g, v, cur) if cur.op == "case" or cur.op == "agg" else case(cur, [(okl, v), (bad, cur)])
        return UNIT, s3
    r, st = I_.each(st, s, go)
    return st[c], st


@model("Iterator::for_each")
def m_for_each(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    fv = args[1][0]
    r, st = I_.each(st, s, lambda s2, x: I_.apply(fv, [x], s2, t))
    return UNIT, st


@model("Iterator::sum")
def m_sum(I_, st, f, args, t):
    d = dty(t)
    if not is_intty(d) and not d.startswith("pasta_curves") and not d.startswith("reddsa"):
        return None
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    c = I_.newcell()
    st = dict(st)
    st[c] = I(0) if is_intty(d) else ZERO

    def go(s2, x):
        s3 = dict(s2)
        s3[c] = t_add(s2[c], I_.val(s2, x))
        return UNIT, s3
    r, st = I_.each(st, s, go)
    return st[c], st


def collect_as(I_, st, s, d):
    d = d.strip()
    m = re.match(r"^(?:std|core)::(result::Result|option::Option)<(.*)>$", d)
    if m:
        okl, bad = ("Ok", "Err") if "Result" in m.group(1) else ("Some", "None")
        wrap = ok if okl == "Ok" else some
        inner = m.group(2)

        def one(s):
            if is_arr(s):
                out = wrap(arr())
                for x in s.a[3:]:
                    def step(acc, x=x):
                        if is_agg(acc, None, bad):
                            return acc
                        pre = acc.a[3]
                        return case_opt(I_, x, okl, bad, lambda p: wrap(concat(pre, arr(p))))
                    out = map_leaves(out, step)
                return out
            if s.op == "concat":
                out = wrap(arr())
                for p in s.a:
                    r = one(p)

                    def step(acc, r=r):
                        if is_agg(acc, None, bad):
                            return acc
                        pre = acc.a[3]
                        return map_leaves(r, lambda q: q if is_agg(q, None, bad) else wrap(concat(pre, q.a[3])))
                    out = map_leaves(out, step)
                return out
            b, e = ispace(s), elem(s)
            g = guardbool(I_.isvar(e, bad))
            anyb = I_.mkany(b, g)
            okv = wrap(smap(b, I_.payload(e, okl)))
            if anyb is FALSE:
                return okv
            badv = NONE if bad == "None" else err(I_.mkfirst(b, g, I_.payload(e, bad)))
            return ite(asguard(anyb), badv, okv)
        return map_leaves(s, one)
    if re.search(r"(BTreeMap|HashMap|BTreeSet|HashSet|String)\b", d[:60]):
        return mk("collect", re.match(r"[\w:]*", d).group(0), s)
    return s


def case_opt(I_, x, okl, bad, fn):
    def lf(l):
        if l.op == "agg":
            return fn(l.a[3]) if l.a[1] == okl else l
        b = NONE if bad == "None" else err(I_.payload(l, bad))
        return case(l, [(okl, fn(I_.payload(l, okl))), (bad, b)])
    return map_leaves(x, lf)


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    d = dty(t)
    if d.split("<")[0].startswith(("action", "builder", "bundle", "value", "note", "keys")):
        return None
    return collect_as(I_, st, s, d), st


@model("Iterator::unzip")
def m_unzip(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])

    def uz(s):
        if is_arr(s):
            xs = s.a[3:]
            return tup(arr(*[I_.proj(x, ("f", "0")) for x in xs]), arr(*[I_.proj(x, ("f", "1")) for x in xs]))
        b, e = ispace(s), elem(s)
        if b.op == "filt":
            return tup(mk("filt", b.a[0], b.a[1], I_.proj(e, ("f", "0"))), mk("filt", b.a[0], b.a[1], I_.proj(e, ("f", "1"))))
        return tup(smap(b, I_.proj(e, ("f", "0"))), smap(b, I_.proj(e, ("f", "1"))))
    return map_leaves(s, uz), st


def anyof(I_, st, s, fv, t, negate):
    r, st = I_.each(st, s, lambda s2, x: I_.apply(fv, [x], s2, t))
    if r[0] == "list":
        g = FALSE
        for v in r[1]:
            g = b_or(g, b_not(v) if negate else v)
    elif r[0] == "body":
        g = I_.mkany(r[1], b_not(r[2]) if negate else r[2])
    elif r[0] == "bot":
        return BOT, st
    else:
        q = r[1]

        def one(q):
            if is_arr(q):
                g = FALSE
                for v in q.a[3:]:
                    g = b_or(g, b_not(v) if negate else v)
                return g
            if q.op == "concat":
                g = FALSE
                for p in q.a:
                    g = b_or(g, one(p))
                return g
            e = elem(q)
            return I_.mkany(ispace(q), b_not(e) if negate else e)
        g = map_leaves(q, one)
    return (b_not(g) if negate else g), st


@model("Iterator::any")
def m_any(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    return anyof(I_, st, s, args[1][0], t, False)


@model("Iterator::all")
def m_all(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    return anyof(I_, st, s, args[1][0], t, True)


@model("Iterator::find", "Iterator::find_map", "Iterator::position")
def m_find(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    fv = args[1][0]
    kind = f["m"]
    r, st = I_.each(st, s, lambda s2, x: _pair(I_.apply(fv, [x], s2, t), x))

    def hit(v):
        return guardbool(I_.isvar(v.a[3], "Some")) if kind == "find_map" else v.a[3]

    def res(v, i):
        if kind == "find_map":
            return I_.payload(v.a[3], "Some")
        return v.a[4] if kind == "find" else i

    if r[0] == "list":
        out = NONE
        for i, v in reversed(list(enumerate(r[1]))):
            out = ite(asguard(hit(v)), some(res(v, I(i))), out)
        return out, st
    if r[0] == "body":
        b, v = r[1], r[2]
        g = hit(v)
        anyb = I_.mkany(b, g)
        if anyb is FALSE:
            return NONE, st
        return ite(asguard(anyb), some(I_.mkfirst(b, g, res(v, idx(b)))), NONE), st
    return unk("find"), st


@model("Iterator::count", "ExactSizeIterator::len")
def m_count(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    return length(s), st


@model("Iterator::last")
def m_last(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    return slice_last(I_, s), st


@model("Iterator::nth")
def m_nth(I_, st, f, args, t):
    """element i of what is left, which then starts after it"""
    r = args[0][0]
    if r.op != "ref" or I_.loopctx:
        return None
    r = owner_ref(I_, st, r)
    s = toseq(I_, I_.read(st, r.a[0], r.a[1]))
    i = args[1][0]
    if s.op == "case" or s is BOT or s.op == "unk":
        return None
    st = dict(st)
    I_.write(st, ("loc", r.a[0], r.a[1]), t_skip(s, t_add(i, I(1))))
    return lift(lambda s, i: case(t_lt(i, length(s), True), [("1", some(index(s, i))), ("0", NONE)]), s, i), st


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(I_, st, f, args, t):
    r = args[0][0]
    if r.op != "ref":
        return None
    r = owner_ref(I_, st, r)
    s = toseq(I_, I_.read(st, r.a[0], r.a[1]))
    if f["m"] == "next_back":
        return None
    if I_.loopctx:
        ctx = I_.loopctx[-1]
        if s.op == "range" and s.a[0].op == "int" and s.a[1].op == "int" and s.a[1].a[0] - s.a[0].a[0] <= 64 and not I_.folded:
            s = arr(*[I(i) for i in range(s.a[0].a[0], s.a[1].a[0])])
        elif s.op == "range" and I_.folded:
            s = I_.positions(s.a[0], s.a[1])
        if I_.force and ctx.get("concrete") and not is_arr(s):
            s2 = literalize(s)
            s = s if s2 is None else s2
        if ctx.get("concrete") and r.a[0] in ctx["pre"] and ctx["body"] is I_.callstack[-1]:
            if is_arr(s):
                ctx["popped"] += 1
            else:
                ctx["sym"] = True
        elif r.a[0] in ctx["pre"] and ctx["body"] is I_.callstack[-1] and (ctx["it"] is None or ctx["key"] == (r.a[0], r.a[1])):
            if s.op == "case":
                ctx["fork"] = (r.a[0], r.a[1], s)
                s = mk("seqcase", s)
            ctx["it"] = s
            ctx["cell"] = r.a[0]
            ctx["key"] = (r.a[0], r.a[1])
            ctx["space"] = ispace(s)
            return case(mk("hasnext", s), [("0", NONE), ("1", some(elem(s)))]), st
    st = dict(st)

    I_.write(st, ("loc", r.a[0], r.a[1]), t_skip(s, I(1)))
    return t_next(s), st


@model("Vec::pop", "VecDeque::pop_back", "VecDeque::pop_front")
def m_pop(I_, st, f, args, t):
    """Taking elements off an end; `while let Some(x) = v.pop()` goes over all of v."""
    r = args[0][0]
    if r.op != "ref":
        return None
    front = f["fn"].endswith("front")
    r = owner_ref(I_, st, r)
    s = I_.read(st, r.a[0], r.a[1])
    if s.op in ("case", "unk", "mut") or s is BOT:
        return None
    s = toseq(I_, s)
    st = dict(st)
    if is_arr(s):
        if len(s.a) == 3:
            return NONE, st
        vs = s.a[3:]
        if I_.loopctx and I_.loopctx[-1].get("concrete"):
            I_.loopctx[-1]["popped"] += 1
        I_.write(st, ("loc", r.a[0], r.a[1]), arr(*(vs[1:] if front else vs[:-1])))
        return some(vs[0 if front else -1]), st
    if I_.loopctx:
        ctx = I_.loopctx[-1]
        if r.a[0] in ctx["pre"] and ctx["body"] is I_.callstack[-1]:
            if ctx.get("concrete"):
                ctx["sym"] = True
                return unk("pop"), st
            if ctx["it"] is None or ctx["key"] == (r.a[0], r.a[1]):
                it = s if front else t_rev(s)
                ctx["it"], ctx["cell"], ctx["key"], ctx["space"] = it, r.a[0], (r.a[0], r.a[1]), ispace(it)
                hn = mk("hasnext", it)
                I_.write(st, ("loc", r.a[0], r.a[1]), case(hn, [("0", arr()), ("1", unk("partly emptied"))]))
                return case(hn, [("0", NONE), ("1", some(elem(it)))]), st
        return None
    n = length(s)
    rest = slc(s, I(1), None) if front else slc(s, FALSE, t_add(n, I(-1)))
    x = index(s, FALSE if front else t_add(n, I(-1)))
    e = t_eq(n, I(0))
    I_.write(st, ("loc", r.a[0], r.a[1]), case(e, [("1", s), ("0", rest)]) if e not in (TRUE, FALSE) else s if e is TRUE else rest)
    return (NONE if e is TRUE else some(x) if e is FALSE else case(e, [("1", NONE), ("0", some(x))])), st


@model("iter::once")
def m_once(I_, st, f, args, t):
    return arr(args[0][0]), st


@model("iter::empty")
def m_empty(I_, st, f, args, t):
    return arr(), st


@model("iter::repeat", "iter::repeat_n")
def m_repeat(I_, st, f, args, t):
    return mk("repeat", A(I_, st, args, 0), args[1][0] if len(args) > 1 else UNIT), st


@model("iter::repeat_with")
def m_repeat_with(I_, st, f, args, t):
    fv = args[0][0]
    I_.ctx.append(("each", "repeat_with"))
    try:
        v, st2 = I_.apply(fv, [], st, t)
    finally:
        I_.ctx.pop()
    return mk("repeatw", I_.deep(st2, v), UNIT), st


@model("Extend::extend", "Vec::extend", "Vec::extend_from_slice", "Vec::append")
def m_extend(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    old = I_.val(st, args[0][0])
    s = toseq_ty(I_, A(I_, st, args, 1), args[1][2])
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), lconcat(old, s))


@model("Vec::resize_with", "Vec::resize")
def m_resize(I_, st, f, args, t):
    """Vec::resize(v, n, x) / resize_with(v, n, f): cut or padded to exactly n"""
    if not f["fn"].endswith("resize_with"):
        x = args[2][0]
    else:
        I_.ctx.append(("each", "repeat_with"))
        try:
            x, st = I_.apply(args[2][0], [], st, t)
        finally:
            I_.ctx.pop()
    old = I_.val(st, args[0][0])
    pad = mk("repeatw", I_.deep(st, x), UNIT)
    n = args[1][0]
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), lift(lambda a, k: take(concat(a, pad), k), old, n))


@model("Vec::truncate")
def m_truncate(I_, st, f, args, t):
    old = I_.val(st, args[0][0])
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), lift(take, old, args[1][0]))


# ------------------------------------------------------------------ mutable iteration

def iter_mut(I_, st, r):
    st = dict(st)
    s = I_.read(st, r.a[0], r.a[1])
    if is_arr(s) and len(s.a) - 3 <= 64:
        return arr(*[mk("ref", r.a[0], r.a[1] + (("i", I(i)),)) for i in range(len(s.a) - 3)]), st
    sp = ispace(s)
    tmp = I_.newcell()
    st[tmp] = elem(s)
    I_.itm[tmp] = (r.a[0], r.a[1], sp)
    return mk("map", sp, mk("ref", tmp, ())), st


@model("slice::iter_mut", "Vec::iter_mut", "NonEmpty::iter_mut", "array::iter_mut")
def m_iter_mut(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    if r.op != "ref":
        return None
    return iter_mut(I_, st, r)


# ------------------------------------------------------------------ vectors, slices, arrays

@model("Vec::new", "Vec::with_capacity", "Vec::default")
def m_vec_new(I_, st, f, args, t):
    return arr(), st


@model("Default::default")
def m_default(I_, st, f, args, t):
    d = dty(t)
    if d.startswith("std::vec::Vec<"):
        return arr(), st
    if is_intty(d) or d == "bool":
        return I(0), st
    if d.startswith("std::option::Option<"):
        return NONE, st
    if d.startswith("pasta_curves::"):
        return ZERO, st
    return None


@model("vec::from_elem")
def m_from_elem(I_, st, f, args, t):
    return mk("repeat", A(I_, st, args, 0), args[1][0]), st


@model("Vec::push", "NonEmpty::push")
def m_push(I_, st, f, args, t):
    old = I_.val(st, args[0][0])
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), push(old, args[1][0]))


@model("Vec::len", "slice::len", "NonEmpty::len", "str::len")
def m_len(I_, st, f, args, t):
    return length(A(I_, st, args, 0)), st


@model("Vec::is_empty", "slice::is_empty", "NonEmpty::is_empty")
def m_is_empty(I_, st, f, args, t):
    return t_eq(length(A(I_, st, args, 0)), I(0)), st


@model("slice::get", "Vec::get", "NonEmpty::get")
def m_get(I_, st, f, args, t):
    s = A(I_, st, args, 0)
    i = args[1][0]
    if i.op == "agg":
        r = as_range(i)
        if r is None:
            return None
        lo, hi = r

        def sub(s):
            ok = within(s, lo, hi)
            return case(ok, [("1", some(slc(s, lo, hi))), ("0", NONE)]) if ok not in (TRUE, FALSE) else (some(slc(s, lo, hi)) if ok is TRUE else NONE)
        return map_leaves(s, sub), st

    def g(s, i):
        n = length(s)
        ltn = t_lt(i, n, True)
        if n.op == "mul" and False:
            pass
        return case(ltn, [("1", some(index(s, i))), ("0", NONE)]) if ltn not in (TRUE, FALSE) else (some(index(s, i)) if ltn is TRUE else NONE)
    return lift(g, s, i), st


@model("slice::get_mut", "Vec::get_mut", "NonEmpty::get_mut")
def m_get_mut(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    i = args[1][0]
    if r.op != "ref" or i.op in ("agg", "case"):
        return None
    n = length(I_.val(st, args[0][0]))
    if n.op == "case":
        return None
    x = some(mk("ref", r.a[0], r.a[1] + (("i", i),)))
    l = t_lt(i, n, True)
    return (x if l is TRUE else NONE if l is FALSE else case(l, [("1", x), ("0", NONE)])), st


def first_of(I_, s):
    def g(s):
        if is_arr(s):
            return some(s.a[3]) if len(s.a) > 3 else NONE
        return case(t_eq(length(s), I(0)), [("1", NONE), ("0", some(index(s, I(0))))])
    return map_leaves(s, g)


def slice_last(I_, s):
    def g(s):
        if is_arr(s):
            return some(s.a[-1]) if len(s.a) > 3 else NONE
        return case(t_eq(length(s), I(0)), [("1", NONE), ("0", some(mk("lastel", s)))])
    return map_leaves(s, g)


@model("slice::first", "Vec::first")
def m_first(I_, st, f, args, t):
    return first_of(I_, A(I_, st, args, 0)), st


@model("NonEmpty::first", "NonEmpty::head")
def m_ne_first(I_, st, f, args, t):
    return map_leaves(A(I_, st, args, 0), lambda s: index(s, I(0))), st


@model("slice::last", "Vec::last")
def m_slast(I_, st, f, args, t):
    return slice_last(I_, A(I_, st, args, 0)), st


@model("NonEmpty::from_vec", "NonEmpty::collect", "NonEmpty::from_slice")
def m_ne_from(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])

    def g(s):
        if is_arr(s):
            return some(s) if len(s.a) > 3 else NONE
        return ite(asguard(t_eq(length(s), I(0))), NONE, some(s))
    return map_leaves(s, g), st


@model("NonEmpty::new", "NonEmpty::singleton")
def m_ne_new(I_, st, f, args, t):
    return arr(args[0][0]), st


def as_range(v):
    """-> (lo, hi or None) for a range value, else None."""
    if v.op != "agg":
        return None
    k = v.a[0].split("::")[-1]
    if k == "Range":
        return v.a[3], v.a[4]
    if k == "RangeFrom":
        return v.a[3], None
    if k == "RangeTo":
        return FALSE, v.a[3]
    if k == "RangeFull":
        return FALSE, None
    if k == "rangeincl":
        return v.a[3], t_add(v.a[4], I(1))
    return None


@model("Index::index")
def m_index(I_, st, f, args, t):
    s = A(I_, st, args, 0)
    i = A(I_, st, args, 1)
    r = as_range(i)
    I_.learn_len(s, args[0][2])
    I_.event("index", "index", [s, i], t.get("span"))
    if r is not None:
        return map_leaves(s, lambda x: slc(x, r[0], r[1])), st
    if i.op == "agg":
        return None
    return index(s, i), st


def within(s, lo, hi):
    """0 <= lo <= hi <= len(s), for each leaf of s"""
    def f(x):
        n = length(x)
        h = n if hi is None else hi
        up = TRUE if hi is None else b_not(t_lt(n, h, True))
        return b_and(up, b_not(t_lt(h, lo, True))) if lo is not FALSE else up
    return map_leaves(s, f)


def seqlike(s):
    return all(is_arr(x) or x.op not in ("agg", "call", "rand", "mut") or known_len(x) is not None for x in leaves(s))


def b_index(I_, st, args):
    s, i = A(I_, st, args, 0), A(I_, st, args, 1)
    ty = peel(args[0][2])
    if not re.match(r"^(\[|std::vec::Vec|alloc::vec::Vec|nonempty::NonEmpty|arrayvec::)", ty) and "[" not in ty:
        return None
    I_.learn_len(s, args[0][2])
    r = as_range(i)
    if r is None:
        if i.op == "agg":
            if i.a[0].split("::")[-1] == "RangeToInclusive":
                return within(s, FALSE, t_add(i.a[3], I(1)))
            return None
        return map_leaves(s, lambda x: t_lt(i, length(x), True))
    if r[0] is FALSE and r[1] is None:
        return None
    return within(s, r[0], r[1])


def b_split(I_, st, args):
    s, n = A(I_, st, args, 0), A(I_, st, args, 1)
    I_.learn_len(s, args[0][2])
    return within(s, FALSE, n)


def b_below(I_, st, args):
    return map_leaves(A(I_, st, args, 0), lambda x: t_lt(A(I_, st, args, 1), length(x), True))


def b_swap(I_, st, args):
    return b_and(b_below(I_, st, args), b_below(I_, st, [args[0], args[2]]))


def b_same(I_, st, args):
    a, b = A(I_, st, args, 0), A(I_, st, args, 1)
    I_.learn_len(a, args[0][2])
    I_.learn_len(b, args[1][2])
    return map_leaves(a, lambda x: map_leaves(b, lambda y: t_eq(length(x), length(y))))


def b_nonzero(I_, st, args):
    return b_not(t_eq(A(I_, st, args, 1), I(0)))


BOUNDED = {"Index::index": b_index, "IndexMut::index_mut": b_index, "slice::split_at": b_split, "slice::split_at_mut": b_split,
           "Vec::split_off": b_split, "Vec::drain": b_index, "Vec::insert": b_split, "Vec::remove": b_below, "Vec::swap_remove": b_below, "slice::swap": b_swap,
           "slice::copy_from_slice": b_same, "slice::clone_from_slice": b_same, "slice::rotate_left": b_split, "slice::rotate_right": b_split,
           "slice::chunks": b_nonzero, "slice::chunks_exact": b_nonzero, "slice::chunks_mut": b_nonzero, "slice::chunks_exact_mut": b_nonzero,
           "slice::windows": b_nonzero, "Iterator::step_by": b_nonzero}


@model("IndexMut::index_mut")
def m_index_mut(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref":
        return None
    s = I_.read(st, ref.a[0], ref.a[1])
    i = A(I_, st, args, 1)
    I_.learn_len(s, args[0][2])
    I_.event("index", "index_mut", [s, i], t.get("span"))
    r = as_range(i)
    if r is not None:
        lo, hi = r
        if hi is None:
            n = known_len(s)
            hi = I(n) if n is not None else None
        if lo is FALSE and hi is not None and hi.op == "int" and known_len(s) == hi.a[0]:
            return ref, st
        if lo is FALSE and hi is None:
            return ref, st
        return mk("ref", ref.a[0], ref.a[1] + (("s", lo, hi),)), st
    return mk("ref", ref.a[0], ref.a[1] + (("i", i),)), st


@model("slice::copy_from_slice", "slice::clone_from_slice", "Vec::clone_from_slice")
def m_copy(I_, st, f, args, t):
    src = A(I_, st, args, 1)
    ref = owner_ref(I_, st, args[0][0])
    dst = I_.val(st, args[0][0])
    I_.event("copylen", "copy_from_slice", [dst, src], t.get("span"))
    return UNIT, cell_update(I_, st, ref, src)


@model("slice::split_at")
def m_split_at(I_, st, f, args, t):
    s, n = A(I_, st, args, 0), args[1][0]
    I_.event("index", "split_at", [s, n], t.get("span"))
    return tup(map_leaves(s, lambda x: slc(x, FALSE, n)), map_leaves(s, lambda x: slc(x, n, None))), st


@model("slice::split_at_mut")
def m_split_at_mut(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref":
        return None
    s, n = I_.read(st, ref.a[0], ref.a[1]), args[1][0]
    I_.event("index", "split_at", [s, n], t.get("span"))
    l = known_len(s)
    at_ = lambda lo, hi: mk("ref", ref.a[0], ref.a[1] + (("s", lo, hi),))
    return tup(at_(FALSE, n), at_(n, I(l) if l is not None else None)), st


@model("slice::chunks_mut", "slice::chunks_exact_mut")
def m_chunks_mut(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref":
        return None
    b = chunk_bounds(I_.read(st, ref.a[0], ref.a[1]), args[1][0], "exact" in f["fn"])
    return None if b is None else (arr(*[mk("ref", ref.a[0], ref.a[1] + (("s", I(lo), I(hi)),)) for lo, hi in b]), st)


@model("slice::chunks", "slice::chunks_exact")
def m_chunks(I_, st, f, args, t):
    s = A(I_, st, args, 0)
    b = chunk_bounds(s, args[1][0], "exact" in f["fn"])
    return None if b is None else (arr(*[slc(s, I(lo), I(hi)) for lo, hi in b]), st)


def chunk_bounds(s, n, exact):
    l = known_len(s)
    if l is None or n.op != "int" or n.a[0] <= 0 or l // n.a[0] > 64:
        return None
    n = n.a[0]
    return [(i, min(i + n, l)) for i in range(0, l, n) if not exact or i + n <= l]


@model("slice::split_first", "slice::split_last")
def m_split_first(I_, st, f, args, t):
    fst = f["fn"].endswith("first")

    def g(s):
        n = length(s)
        x = index(s, FALSE if fst else t_add(n, I(-1)))
        rest = slc(s, I(1), None) if fst else slc(s, FALSE, t_add(n, I(-1)))
        e = t_eq(n, I(0))
        r = some(tup(x, rest))
        return NONE if e is TRUE else r if e is FALSE else case(e, [("1", NONE), ("0", r)])
    return map_leaves(A(I_, st, args, 0), g), st


@model("slice::swap")
def m_swap(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    i, j = args[1][0], args[2][0]
    if r.op != "ref" or any(x.op == "case" for x in (i, j)):
        return None
    a, b = (I_.read(st, r.a[0], r.a[1] + (("i", x),)) for x in (i, j))
    st = dict(st)
    I_.write(st, ("loc", r.a[0], r.a[1] + (("i", i),)), b)
    I_.write(st, ("loc", r.a[0], r.a[1] + (("i", j),)), a)
    return UNIT, st


@model("Vec::remove", "Vec::swap_remove")
def m_remove(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    i = args[1][0]
    if r.op != "ref" or I_.loopctx and not is_arr(I_.read(st, r.a[0], r.a[1])):
        return None
    s = I_.val(st, args[0][0])

    def rest(s, i):
        if f["fn"].endswith("swap_remove"):
            if not is_arr(s) or i.op != "int" or not 0 <= i.a[0] < len(s.a) - 3:
                return unk("swap_remove")
            xs = list(s.a[3:])
            xs[i.a[0]] = xs[-1]
            return arr(*xs[:-1])
        return concat(slc(s, FALSE, i), slc(s, t_add(i, I(1)), None))
    return lift(index, s, i), cell_update(I_, st, r, lift(rest, s, i))


@model("Vec::drain")
def m_drain(I_, st, f, args, t):
    """what is drained, and the rest stays (the iterator is taken to be dropped, not leaked)"""
    r = owner_ref(I_, st, args[0][0])
    w = as_range(A(I_, st, args, 1))
    if r.op != "ref" or w is None or I_.loopctx and not is_arr(I_.read(st, r.a[0], r.a[1])):
        return None
    s = I_.val(st, args[0][0])
    lo, hi = w
    rest = map_leaves(s, lambda x: concat(slc(x, FALSE, lo), slc(x, hi, None)) if hi is not None else slc(x, FALSE, lo))
    return map_leaves(s, lambda x: slc(x, lo, hi)), cell_update(I_, st, r, rest)


@model("Vec::insert")
def m_insert(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    if r.op != "ref":
        return None
    x = args[2][0]
    return UNIT, cell_update(I_, st, r, lift(lambda s, i: concat(slc(s, FALSE, i), arr(x), slc(s, i, None)), I_.val(st, args[0][0]), args[1][0]))


@model("slice::rotate_left", "slice::rotate_right")
def m_rotate(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    if r.op != "ref":
        return None

    def go(s, k):
        if f["fn"].endswith("right"):
            k = t_add(length(s), neg(k))
        return concat(slc(s, k, None), slc(s, FALSE, k))
    return UNIT, cell_update(I_, st, r, lift(go, I_.val(st, args[0][0]), args[1][0]))


@model("slice::contains")
def m_scontains(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    x = I_.deep(st, A(I_, st, args, 1))
    r, st = I_.each(st, s, lambda s2, y: (t_eq(I_.deep(s2, y), x), s2))
    if r[0] == "list":
        g = FALSE
        for v in r[1]:
            g = b_or(g, v)
        return g, st
    if r[0] == "body":
        return I_.mkany(r[1], r[2]), st
    return None


@model("Vec::retain")
def m_retain(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref" or I_.loopctx:
        return None
    s = toseq(I_, I_.val(st, args[0][0]))
    fv = args[1][0]
    r, st = I_.each(st, s, lambda s2, x: _pair(I_.apply(fv, [x], s2, t), x))
    return UNIT, cell_update(I_, st, ref, filt_result(I_, r, lambda v: (v.a[3], v.a[4])))


@model("Vec::clear")
def m_clear(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref":
        return None
    return UNIT, cell_update(I_, st, ref, arr())


@model("slice::fill")
def m_fill(I_, st, f, args, t):
    ref = owner_ref(I_, st, args[0][0])
    if ref.op != "ref":
        return None
    return UNIT, cell_update(I_, st, ref, mk("repeat", args[1][0], length(I_.val(st, args[0][0]))))


@model("slice::concat", "slice::join")
def m_concat(I_, st, f, args, t):
    s = A(I_, st, args, 0)
    if is_arr(s):
        xs = [I_.val(st, x) for x in s.a[3:]]
        return bytes_concat(xs), st
    return mk("flat", ispace(s), elem(s)), st


def bytes_concat(xs):
    ls = [known_len(x) for x in xs]
    if all(l is not None for l in ls):
        out, o = [], 0
        for x, l in zip(xs, ls):
            out.append((o, o + l, x))
            o += l
        return segs(o, UNIT, out)
    return concat(*xs)


@model("array::from_fn")
def m_from_fn(I_, st, f, args, t):
    m = re.match(r"^\[(.*); (\d+)\]$", dty(t))
    if not m:
        return None
    n = int(m.group(2))
    if n <= 16:
        s = arr(*[I(i) for i in range(n)])
    else:
        s = mk("range", I(0), I(n))
    r, st = I_.each(st, s, lambda s2, x: I_.apply(args[0][0], [x], s2, t))
    return I_.seqof(r), st


ARRTY = re.compile(r"^\[.*; (\d+)\]$")


def to_array(I_, v, n, errv):
    def g(v):
        l = known_len(v)
        if l is not None:
            return ok(v) if l == n else err(errv)
        r = case(t_eq(length(v), I(n)), [("1", ok(v)), ("0", err(errv))])
        return r
    return map_leaves(v, g)


@model("TryInto::try_into", "TryFrom::try_from")
def m_try_into(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    d = dty(t)
    m = re.match(r"^(?:std|core)::result::Result<(.*), [^,]*>$", d)
    if not m:
        return None
    dst = peel(m.group(1))
    src = peel(args[0][2])
    v = A(I_, st, args, 0)
    ma = ARRTY.match(dst)
    if ma and (src.startswith("[") or "Vec<" in src):
        I_.learn_len(v, src)
        return to_array(I_, v, int(ma.group(1)), mk("named", "TryFromSliceError")), st
    if is_intty(src) and is_intty(dst):
        from .interp import widening, fits

        def g(x):
            if x.op == "int":
                return ok(x) if fits(x.a[0], dst) else err(mk("named", "TryFromIntError"))
            if widening(src, dst):
                return ok(x)
            return case(t_fits(dst, x), [("1", ok(x)), ("0", err(mk("named", "TryFromIntError")))])
        return map_leaves(v, g), st
    return None


# ------------------------------------------------------------------ randomness

@model("SliceRandom::shuffle")
def m_shuffle(I_, st, f, args, t):
    s = I_.val(st, args[0][0])
    rng = [I_.val(st, a[0]) for a in args if a[3]]
    I_.uid += 1
    p = mk("permid", I_.uid, rng[0] if rng else UNIT)
    I_.event("call", "SliceRandom::shuffle", [s], t.get("span"), p, f)
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), map_leaves(s, lambda x: perm(x, p)))


def comps(b):
    if b.op == "take":
        return comps(b.a[0]) | {b}
    if b.op == "zip":
        return set(b.a) | {b}
    return {b}


def perm(s, p):
    if is_arr(s) and len(s.a) <= 4:
        return s
    b = ispace(s)
    P = mk("perm", b, p)
    e = elem(s)
    m = {}
    for c in comps(b):
        ec = elem(c)
        if ec.op == "elem":
            m[ec] = mk("at", ec, P)
        m[idx(c)] = mk("at", idx(c), P)
    return mk("map", P, subst(e, m))


# ------------------------------------------------------------------ arithmetic

def addable(ty):
    ty = peel(ty)
    return is_intty(ty) or ty.startswith("pasta_curves::") or ty.startswith("reddsa::") or ty in ("A", "B", "T")


@model("Add::add")
def m_add(I_, st, f, args, t):
    return t_add(A(I_, st, args, 0), A(I_, st, args, 1)), st


@model("Sub::sub")
def m_sub(I_, st, f, args, t):
    return t_sub(A(I_, st, args, 0), A(I_, st, args, 1)), st


@model("Mul::mul")
def m_mul(I_, st, f, args, t):
    return t_mul(A(I_, st, args, 0), A(I_, st, args, 1)), st


@model("Neg::neg", "num::neg")
def m_neg(I_, st, f, args, t):
    return neg(A(I_, st, args, 0)), st


@model("AddAssign::add_assign")
def m_add_assign(I_, st, f, args, t):
    v = t_add(I_.val(st, args[0][0]), A(I_, st, args, 1))
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), v)


@model("SubAssign::sub_assign")
def m_sub_assign(I_, st, f, args, t):
    v = t_sub(I_.val(st, args[0][0]), A(I_, st, args, 1))
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), v)


@model("MulAssign::mul_assign")
def m_mul_assign(I_, st, f, args, t):
    v = t_mul(I_.val(st, args[0][0]), A(I_, st, args, 1))
    return UNIT, cell_update(I_, st, owner_ref(I_, st, args[0][0]), v)


@model("Fp::zero", "Fq::zero", "Group::identity", "PrimeCurveAffine::identity", "Ep::identity", "EpAffine::identity", "Field::zero")
def m_zero(I_, st, f, args, t):
    return ZERO, st


@model("Group::is_identity", "Field::is_zero", "Field::is_zero_vartime", "PrimeCurveAffine::is_identity", "CurveAffine::is_identity", "Fp::is_zero", "Fq::is_zero")
def m_is_zero(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    return t_eq(strip_rep(v), ZERO), st


def strip_rep(v):
    """Affine and projective forms of one point are the same point."""
    return v


@model("Curve::to_affine", "PrimeCurveAffine::to_curve", "PrimeCurve::to_affine", "CofactorCurve::to_affine")
def m_affine(I_, st, f, args, t):
    return A(I_, st, args, 0), st


@model("Curve::batch_normalize")
def m_batch_normalize(I_, st, f, args, t):
    src = toseq(I_, A(I_, st, args, 0))
    r = args[1][0]
    if r.op != "ref":
        return None
    r = owner_ref(I_, st, r)
    st = dict(st)
    same = t_eq(length(src), length(toseq(I_, I_.read(st, r.a[0], r.a[1]))))
    if same is not TRUE:
        I_.gstack.append(g_not(asguard(same)))
        I_.event("panic", "slice::len_mismatch", [], t.get("span"))
        I_.gstack.pop()
    I_.write(st, ("loc", r.a[0], r.a[1]), src)
    return UNIT, st


@model("CurveAffine::coordinates")
def m_coordinates(I_, st, f, args, t):
    """the affine coordinates exist exactly for points other than the identity"""
    def g(p):
        return case(t_eq(ZERO, p), [("1", NONE), ("0", some(mk("call", "coords", p)))])
    return map_leaves(A(I_, st, args, 0), g), st


@model("Field::square", "Fp::square", "Fq::square")
def m_square(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    return t_mul(v, v), st


@model("Field::double", "Fp::double", "Fq::double", "Group::double")
def m_double(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    return t_add(v, v), st


@model("num::checked_add", "num::checked_sub", "num::checked_mul", "num::checked_neg")
def m_checked(I_, st, f, args, t):
    ty = peel(args[0][2])
    op = {"checked_add": t_add, "checked_sub": t_sub, "checked_mul": t_mul}.get(f["fn"].split("::")[-1])
    if op is None:
        v = neg(A(I_, st, args, 0))
    else:
        v = op(A(I_, st, args, 0), A(I_, st, args, 1))
    from .interp import fits

    def g(x):
        if x.op == "int":
            return some(x) if fits(x.a[0], ty) else NONE
        return case(t_ovf(ty, x), [("0", some(x)), ("1", NONE)])
    return map_leaves(v, g), st


EXACT_OPS = {"saturating_add": (t_add, "sat"), "saturating_sub": (t_sub, "sat"), "saturating_mul": (t_mul, "sat"),
             "wrapping_add": (t_add, "wrap"), "wrapping_sub": (t_sub, "wrap"), "wrapping_mul": (t_mul, "wrap"), "wrapping_neg": (neg, "wrap"),
             "unsigned_abs": (t_abs, "exact"), "abs_diff": (lambda a, b: t_abs(t_sub(a, b)), "exact")}


@model("num::wrapping_add", "num::wrapping_sub", "num::wrapping_neg", "num::wrapping_mul", "num::saturating_add", "num::saturating_sub", "num::saturating_mul",
       "num::overflowing_add", "num::overflowing_sub", "num::overflowing_mul", "num::pow", "num::unsigned_abs", "num::signum", "num::rem_euclid", "num::wrapping_abs", "num::rotate_left",
       "num::rotate_right", "num::swap_bytes", "num::reverse_bits", "num::count_ones", "num::leading_zeros", "num::trailing_zeros", "num::is_power_of_two",
       "num::wrapping_shl", "num::wrapping_shr", "num::next_power_of_two", "num::div_ceil", "num::abs_diff")
def m_numop(I_, st, f, args, t):
    n = f["fn"].split("::")[-1]
    vals = [A(I_, st, args, i) for i in range(len(args))]
    ty = peel(args[0][2])
    from .ranges import tyrange

    def g(*xs):
        if n == "saturating_sub" and peel(args[0][2]).startswith("u"):
            return xs[0] if xs[1] is ZERO or xs[1] is FALSE else add(t_max(xs[0], xs[1]), neg(xs[1]))
        if n in EXACT_OPS and INT.match(ty):
            op, how = EXACT_OPS[n]
            v = op(*xs)
            lo, hi = tyrange(ty)
            if how == "sat":
                return map_leaves(v, lambda x: I(min(max(x.a[0], lo), hi)) if x.op == "int" else
                                  ite(asguard(t_lt(x, I(lo))), I(lo), ite(asguard(t_lt(I(hi), x)), I(hi), x)))
            if how == "wrap":
                w = mk("call", "num::%s<%s>" % (n, ty), *xs)
                return map_leaves(v, lambda x: I((x.a[0] - lo) % (hi - lo + 1) + lo) if x.op == "int" else
                                  case(t_ovf(ty, x), [("0", x), ("1", w)]))
            return v
        if n.startswith("overflowing_") and n[12:] in ("add", "sub", "mul"):
            v = {"add": t_add, "sub": t_sub, "mul": t_mul}[n[12:]](*xs)
            lo, hi = tyrange(ty)
            w = mk("call", "num::wrapping_%s<%s>" % (n[12:], ty), *xs)
            return map_leaves(v, lambda x: tup(I((x.a[0] - lo) % (hi - lo + 1) + lo), FALSE if lo <= x.a[0] <= hi else TRUE) if x.op == "int" else
                              case(t_ovf(ty, x), [("0", tup(x, FALSE)), ("1", tup(w, TRUE))]))
        if n == "signum" and ty.startswith("i"):
            x = xs[0]
            return I((x.a[0] > 0) - (x.a[0] < 0)) if x.op == "int" else \
                ite(asguard(t_lt(x, I(0))), I(-1), ite(asguard(t_eq(x, I(0))), I(0), I(1)))
        if n == "pow" and all(x.op == "int" for x in xs) and xs[1].a[0] < 200:
            r = xs[0].a[0] ** xs[1].a[0]
            from .interp import fits
            if fits(r, peel(args[0][2])):
                return I(r)
        return mk("call", "num::%s<%s>" % (n, peel(args[0][2])), *xs)
    return lift(g, *vals), st


@model("num::abs")
def m_abs(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    ty = peel(args[0][2])
    from .ranges import tyrange
    bad = lift(lambda x: t_lt(x, I(tyrange(ty)[0] + 1)), v)
    if bad is not FALSE:
        I_.gstack.append(asguard(bad))
        I_.event("panic", "num::abs overflow", [v], t.get("span"))
        I_.gstack.pop()
    return t_abs(v), st


@model("num::is_negative")
def m_isneg(I_, st, f, args, t):
    return t_lt(A(I_, st, args, 0), I(0)), st


@model("num::is_positive")
def m_ispos(I_, st, f, args, t):
    return t_lt(I(0), A(I_, st, args, 0)), st


@model("num::to_le_bytes", "num::to_be_bytes", "num::to_ne_bytes")
def m_to_bytes(I_, st, f, args, t):
    n = f["fn"].split("::")[-1]
    if n == "to_ne_bytes":
        n = "to_le_bytes"
    ty = peel(args[0][2])
    v = A(I_, st, args, 0)
    w = {"8": 1, "16": 2, "32": 4, "64": 8, "size": 8, "128": 16}[INT.match(ty).group(1)]

    def g(x):
        if w == 1:
            return arr(x)
        if x.op == "int":
            b = (x.a[0] & ((1 << 8 * w) - 1)).to_bytes(w, "little" if "_le" in n else "big")
            return mk("bytes", b.hex(), 1)
        r = mk("call", "%s::%s" % (ty, n), x)
        seqs.LEN[r] = w
        return r
    return map_leaves(v, g), st


@model("num::from_le_bytes", "num::from_be_bytes", "num::from_ne_bytes")
def m_from_bytes(I_, st, f, args, t):
    n = f["fn"].split("::")[-1].replace("_ne_", "_le_")
    ty = dty(t)
    v = A(I_, st, args, 0)

    def g(x):
        if x.op == "call" and x.a[0] == "%s::%s" % (ty, n.replace("from", "to")):
            return x.a[1]
        return mk("call", "%s::%s" % (ty, n), x)
    return map_leaves(v, g), st


@model("cmp::max", "Ord::max")
def m_max(I_, st, f, args, t):
    return t_max(A(I_, st, args, 0), A(I_, st, args, 1)), st


@model("cmp::min", "Ord::min")
def m_min(I_, st, f, args, t):
    return t_min(A(I_, st, args, 0), A(I_, st, args, 1)), st


@model("Iterator::max", "Iterator::min")
def m_itmax(I_, st, f, args, t):
    s = toseq_ty(I_, A(I_, st, args, 0), args[0][2])
    op = t_max if f["m"] == "max" else t_min
    if is_arr(s) and len(s.a) > 3:
        v = s.a[3]
        for x in s.a[4:]:
            v = op(v, x)
        return some(v), st
    return mk("call", "Iterator::" + f["m"], s), st


# ------------------------------------------------------------------ comparison

@model("PartialEq::eq", "PartialEq::ne")
def m_eq(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    ty = peel(f.get("self", ""))
    if f["m"] == "ne" and "inst" in f and f.get("rfn", "").endswith("PartialEq::ne"):
        return None  # the trait's default: negates this type's own eq
    if "inst" in f and (not leafty(ty) or f.get("self", "").startswith("&")):
        return None
    r = t_eq(I_.deep(st, A(I_, st, args, 0)), I_.deep(st, A(I_, st, args, 1)))
    return (b_not(r) if f["m"] == "ne" else r), st


def leafty(ty):
    return not re.match(r"^(std|core)::(option|result)::", ty)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    uns = peel(f.get("self", "")).startswith("u")
    a, b = A(I_, st, args, 0), A(I_, st, args, 1)
    m = f["m"]
    r = t_lt(a, b, uns) if m == "lt" else t_lt(b, a, uns) if m == "gt" else b_not(t_lt(b, a, uns)) if m == "le" else b_not(t_lt(a, b, uns))
    return r, st


ORD = "std::cmp::Ordering"


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    a, b = I_.deep(st, A(I_, st, args, 0)), I_.deep(st, A(I_, st, args, 1))
    v = lift(lambda x, y: mk("cmp", x, y) if x is not y else agg(ORD, "Equal", ()), a, b)
    return (some(v) if f["m"] == "partial_cmp" else v), st


@model("Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordis(I_, st, f, args, t):
    return None


@model("ConstantTimeEq::ct_eq", "ConstantTimeEq::ct_ne")
def m_ct_eq(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    r = t_eq(A(I_, st, args, 0), A(I_, st, args, 1))
    return (b_not(r) if f["m"] == "ct_ne" else r), st


@model("ConditionallySelectable::conditional_select")
def m_csel(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    a, b, c = (A(I_, st, args, i) for i in range(3))
    return ite(asguard(c), b, a), st


@model("Choice::unwrap_u8")
def m_unwrap_u8(I_, st, f, args, t):
    return A(I_, st, args, 0), st


@model("BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Not::not")
def m_bits(I_, st, f, args, t):
    if f.get("rcrate") == "orchard":
        return None
    ty = peel(f.get("self", ""))
    if ty not in ("subtle::Choice", "bool"):
        if is_intty(ty) and f["m"] != "not":
            return I_.binop({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[f["m"]], A(I_, st, args, 0), A(I_, st, args, 1), ty), st
        return None
    a = A(I_, st, args, 0)
    if f["m"] == "not":
        return b_not(a), st
    b = A(I_, st, args, 1)
    from .interp import t_eqb
    return {"bitand": b_and, "bitor": b_or, "bitxor": lambda x, y: b_not(t_eqb(x, y))}[f["m"]](a, b), st


# ------------------------------------------------------------------ CtOption as Option

@model("CtOption::new")
def m_ct_new(I_, st, f, args, t):
    return ite(asguard(args[1][0]), some(args[0][0]), NONE), st


@model("CtOption::is_some", "CtOption::is_none")
def m_ct_is(I_, st, f, args, t):
    lab = "Some" if f["fn"].split("::")[-1] == "is_some" else "None"
    v = A(I_, st, args, 0)
    g = I_.isvar(v, lab)
    return isvar_term(g), st


def isvar_term(g):
    return guardbool(g)


def with_payload(I_, st, v, label, fn):
    """fn applied to the payload (once, for all leaves holding one)."""
    p = I_.payload(v, label)
    return p


@model("CtOption::map")
def m_ct_map(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    p = I_.payload(v, "Some")
    if p is BOT:
        return NONE, st
    # run on a default value if there is none; the defaults are valid values of their types
    I_.gstack.append(I_.isvar(v, "Some"))
    try:
        r, st = I_.apply(args[1][0], [p], st, t)
    finally:
        I_.gstack.pop()
    return ite(I_.isvar(v, "Some"), some(r), NONE), st


@model("CtOption::and_then")
def m_ct_and_then(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    p = I_.payload(v, "Some")
    if p is BOT:
        return NONE, st
    # run on a default value if there is none; the defaults are valid values of their types
    I_.gstack.append(I_.isvar(v, "Some"))
    try:
        r, st = I_.apply(args[1][0], [p], st, t)
    finally:
        I_.gstack.pop()
    return ite(I_.isvar(v, "Some"), r, NONE), st


@model("CtOption::unwrap", "CtOption::expect")
def m_ct_unwrap(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    g = I_.isvar(v, "None")
    if g is not FALSE and g is not BOT:
        I_.gstack.append(g)
        I_.event("panic", "CtOption::unwrap", [I_.deep(st, v)], t.get("span"))
        I_.gstack.pop()
    return I_.payload(v, "Some"), st


@model("CtOption::unwrap_or")
def m_ct_unwrap_or(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    return ite(I_.isvar(v, "Some"), I_.payload(v, "Some"), args[1][0]), st


@model("CtOption::unwrap_or_else", "CtOption::or_else")
def m_ct_unwrap_or_else(I_, st, f, args, t):
    v = A(I_, st, args, 0)
    r, st = I_.apply(args[1][0], [], st, t)
    orelse = f["fn"].endswith("or_else") and "unwrap" not in f["fn"].split("::")[-1]
    return ite(I_.isvar(v, "Some"), v if orelse else I_.payload(v, "Some"), r), st


# ------------------------------------------------------------------ memory

@model("mem::replace")
def m_replace(I_, st, f, args, t):
    old = I_.val(st, args[0][0])
    return old, cell_update(I_, st, owner_ref(I_, st, args[0][0]), args[1][0])


@model("mem::take", "Option::take")
def m_take_mem(I_, st, f, args, t):
    old = I_.val(st, args[0][0])
    new = NONE if "Option" in args[0][2] else arr() if "Vec" in args[0][2] else unk("default")
    return old, cell_update(I_, st, owner_ref(I_, st, args[0][0]), new)


@model("mem::swap")
def m_swap(I_, st, f, args, t):
    a, b = I_.val(st, args[0][0]), I_.val(st, args[1][0])
    ra, rb = owner_ref(I_, st, args[0][0]), owner_ref(I_, st, args[1][0])
    st = cell_update(I_, st, ra, b)
    return UNIT, cell_update(I_, st, rb, a)


@model("mem::drop", "Drop::drop")
def m_drop(I_, st, f, args, t):
    return UNIT, st


@model("Option::as_mut")
def m_opt_as_mut(I_, st, f, args, t):
    r = owner_ref(I_, st, args[0][0])
    if r.op != "ref":
        return None
    v = I_.read(st, r.a[0], r.a[1])
    inner = mk("ref", r.a[0], r.a[1] + (("v", "Some"), ("f", "0")))
    return ite(I_.isvar(v, "Some"), some(inner), NONE), st


@model("Option::insert", "Option::replace")
def m_opt_insert(I_, st, f, args, t):
    old = I_.val(st, args[0][0])
    r = owner_ref(I_, st, args[0][0])
    st = cell_update(I_, st, r, some(args[1][0]))
    if f["fn"].split("::")[-1] == "replace":
        return old, st
    return mk("ref", r.a[0], r.a[1] + (("v", "Some"), ("f", "0"))), st


# ------------------------------------------------------------------ ranges

@model("RangeInclusive::new")
def m_ri_new(I_, st, f, args, t):
    return agg("rangeincl", "", ("start", "end"), args[0][0], args[1][0]), st


@model("RangeInclusive::start", "RangeInclusive::end")
def m_ri_ends(I_, st, f, args, t):
    r = A(I_, st, args, 0)
    if r.op != "agg":
        return None
    return dict(zip(r.a[2], r.a[3:]))[f["fn"].split("::")[-1]], st


@model("RangeInclusive::contains", "Range::contains", "RangeTo::contains", "RangeFrom::contains", "RangeToInclusive::contains")
def m_contains(I_, st, f, args, t):
    r = A(I_, st, args, 0)
    x = A(I_, st, args, 1)
    if r.op == "named" or r.op != "agg":
        return None
    k = r.a[0].split("::")[-1]
    g = TRUE
    vals = dict(zip(r.a[2], r.a[3:]))
    if "start" in vals:
        g = b_and(g, b_not(t_lt(x, vals["start"])))
    if "end" in vals:
        if k in ("rangeincl", "RangeToInclusive"):
            g = b_and(g, b_not(t_lt(vals["end"], x)))
        else:
            g = b_and(g, t_lt(x, vals["end"]))
    return g, st


# ------------------------------------------------------------------ BLAKE2b

B2 = "blake2b"


@model("Params::new")
def m_b2_new(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    return agg(B2, "", ("len", "key", "salt", "personal"), I(64), UNIT, UNIT, UNIT), st


@model("Params::hash_length", "Params::personal", "Params::key", "Params::salt")
def m_b2_set(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    k = {"hash_length": "len"}.get(f["fn"].split("::")[-1], f["fn"].split("::")[-1])
    v = A(I_, st, args, 0)
    st = cell_update(I_, st, owner_ref(I_, st, args[0][0]), map_leaves(v, lambda x: agg_set(x, k, A(I_, st, args, 1)) if x.op == "agg" else unk("b2")))
    return args[0][0], st


@model("Params::to_state")
def m_b2_state(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    v = A(I_, st, args, 0)
    return mk("call", "blake2b", *v.a[3:]) if v.op == "agg" else unk("b2"), st


@model("State::update")
def m_b2_update(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    from .interp import absorb
    v = A(I_, st, args, 0)
    d = A(I_, st, args, 1)
    new = lift(absorb, v, d)
    return args[0][0], cell_update(I_, st, owner_ref(I_, st, args[0][0]), new)


@model("State::finalize")
def m_b2_fin(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    v = A(I_, st, args, 0)

    def g(x):
        r = mk("call", "blake2b::finalize", x)
        h = x.a[0] if x.op == "absorb" else x
        if h.op == "call" and h.a[0] == "blake2b" and h.a[1].op == "int":
            seqs.LEN[r] = h.a[1].a[0]
        return r
    return map_leaves(v, g), st


@model("Params::hash")
def m_b2_hash(I_, st, f, args, t):
    if "blake2b" not in f["fn"]:
        return None
    v, st = m_b2_state(I_, st, f, args, t)
    from .interp import absorb
    x = absorb(v, A(I_, st, args, 1))
    r = mk("call", "blake2b::finalize", x)
    if v.a[1].op == "int":
        seqs.LEN[r] = v.a[1].a[0]
    return r, st


# ------------------------------------------------------------------ misc

@model("Lazy::get")
def m_lazy(I_, st, f, args, t):
    v, st2 = I_.apply(args[1][0], [], st, t)
    return I_.deep(st2, v), st


@model("Write::write_all")
def m_write_all(I_, st, f, args, t):
    return None


def PREFIX(I_, n, st, f, args, t):
    return None


@model("mem::size_of")
def m_size_of(I_, st, f, args, t):
    ty = (f.get("args") or [""])[0]
    m = re.fullmatch(r"[iu](8|16|32|64|128)", ty)
    if m:
        return I(int(m.group(1)) // 8), st
    if ty in ("usize", "isize"):
        return I(8), st
    m = re.fullmatch(r"\[u8; (\d+)\]", ty)
    return (I(int(m.group(1))), st) if m else None
