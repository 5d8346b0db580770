"""C02: arithmetic on values is exact or reports overflow, and never panics for values the types can hold."""
import json
from .lib import *
from .prim import Spec
from oflow.ranges import t_fits, interval, prune, M, INV
from oflow.interp import guards_of

V = "value::"
SUMS = ("value::<impl std::iter::Sum<&'a value::ValueSum> for std::result::Result<value::ValueSum, value::OverflowError>>::sum",
        "value::<impl std::iter::Sum<value::ValueSum> for std::result::Result<value::ValueSum, value::OverflowError>>::sum")


def inrange(e, yes, no):
    lo, hi = t_lt(e, I(-M)), t_lt(e, I(M + 1))
    return iff(lo, no, iff(hi, yes, no))


def overflow(s):
    return err(s.t.new("OverflowError"))


def checked_sum(s, b, body, init, then):
    """then(total) if every running total of init + body over b is in range"""
    whole = add(init, bigsum(b, body))
    run = add(body, t_pre(b, whole))
    bad = inrange(run, FALSE, TRUE)
    return case(mk("any", b, bad), [("1", overflow(s)), ("0", then(whole))])


def check(r):
    s = Spec(r)
    nv = lambda x: s.S("NoteValue", x)
    vs = lambda x: s.S("ValueSum", x)
    raw = lambda t: fld(t, "0")
    r.fn("sub", "<value::NoteValue as std::ops::Sub>::sub", lambda a, b: vs(t_sub(raw(a), raw(b))), "difference of note values is exact")
    r.fn("add", "<value::ValueSum as std::ops::Add>::add",
         lambda a, b: inrange(t_add(raw(a), raw(b)), some(vs(t_add(raw(a), raw(b)))), NONE), "a sum of value sums is exact, or None outside the documented range")
    for i, f in enumerate(SUMS):
        r.fn("sum%d" % i, f, lambda it: checked_sum(s, it, raw(elem(it)), I(0), lambda w: ok(vs(w))), "a sum over a sequence is exact, or OverflowError", values=typed(r, s, f))
    r.fn("raw", V + "ValueSum::from_raw", lambda v: vs(v), "an i64 is taken as it is", private=True)
    r.fn("zero", V + "ValueSum::zero", vs(I(0)), "zero", private=True)
    r.fn("try_from", "value::<impl std::convert::TryFrom<value::ValueSum> for i64>::try_from",
         lambda v: iff(t_lt(raw(v), I(-2**63)), overflow(s), iff(t_lt(raw(v), I(2**63)), ok(raw(v)), overflow(s))), "Ok exactly when the sum fits an i64")
    r.fn("magnitude", V + "ValueSum::magnitude_sign",
         lambda v: tup(s.R_abs(raw(v)), iff(t_lt(raw(v), I(0)), s.t.new("Sign", variant="Negative"), s.t.new("Sign", variant="Positive"))),
         "magnitude and sign", private=True)
    r.fn("note.raw", V + "NoteValue::from_raw", lambda v: nv(v), "a note value is the 64-bit integer given")
    r.fn("note.inner", V + "NoteValue::inner", lambda v: raw(v), "and gives it back")
    r.fn("note.zero", V + "NoteValue::zero", nv(I(0)), "zero", private=True)
    r.fn("note.from_bytes", V + "NoteValue::from_bytes", lambda b: nv(call("u64::from_le_bytes", b)), "read little-endian", private=True)
    r.fn("note.to_bytes", V + "NoteValue::to_bytes", lambda v: call("u64::to_le_bytes", raw(v)), "written little-endian", private=True)
    r.fn("note.bits", V + "NoteValue::to_le_bits", lambda v: s.bitarr(call("u64::to_le_bytes", raw(v))), "bits little-endian", private=True)
    r.fn("note.base", "value::<impl std::convert::From<&value::NoteValue> for halo2_proofs::plonk::Assigned<pasta_curves::Fp>>::from",
         lambda v: call("From::from@halo2_proofs::plonk::Assigned<pasta_curves::Fp><-pasta_curves::Fp", call("From::from@pasta_curves::Fp<-u64", raw(v))),
         "the circuit's value is the 64-bit integer")
    r.fn("commit", V + "ValueCommitment::derive", lambda v, t: s.S("ValueCommitment", s.value_commit(raw(v), raw(t))), "the committed scalar is the signed value")
    reported(r, s)
    built(r, s)
    panics(r, s)
    made(r, s)


def reported(r, s):
    """the balance before building"""
    vb = "builder::Builder::value_balance"
    if r.has(vb):
        me = r.arg(vb, 0)
        sp, out = fld(me, "spends"), fld(me, "outputs")
        a, b = fld(elem(sp), "note", "value", "0"), fld(elem(out), "value", "0")

        def conv(w):
            x = call("TryFrom::try_from@V<-i64", w)
            return iff(t_lt(w, I(-2**63)), overflow(s), iff(t_lt(w, I(2**63)), case(x, [("Ok", ok(ok_of(x))), ("Err", overflow(s))]), overflow(s)))
        e = checked_sum(s, sp, a, I(0), lambda w: checked_sum(s, out, neg(b), w, conv))
        r.eq("balance", vb, r.sum(vb).ret, e, "the balance before building is exact, or OverflowError")
    else:
        raise Missing(vb)


def built(r, s):
    """the balance of a bundle, in the caller's type"""
    from .build import shape, pieces, B
    for c in shape(r):
        if len(c.leaves) == 1 and pieces(r, c, "pieces"):
            v = add(fld(c.S, "note", "value", "0"), neg(fld(c.O, "value", "0")))
            r.eq("built[%s]" % c.name, B, c.vb, ok_of(call("TryFrom::try_from@V<-i64", bigsum(c.b, v))), "a bundle's balance is the exact sum, converted to the caller's type")


def panics(r, s):
    """No function on values panics for any value the types can hold."""
    for f in sorted(r.P.by_path):
        if not (f.startswith("value::") or f.startswith("<value::")) or "::testing" in f or "std::fmt" in f or "clone" in f or not r.has(f):
            continue
        if f in ("value::VALUE_SUM_RANGE", "value::MAX_NOTE_VALUE") or "assert_fields" in f:
            continue
        try:
            S_ = r.sum(f)
        except Exception as e:
            r.undecided("panic", f, "no panic", str(e))
            continue
        ev = [e for e in S_.events if e.kind == "panic" and not trusted_panic(e) and guardbool(e.guard()) is not FALSE]
        r.ob("panic", f, not ev, "does not panic on any value of its parameter types",
             "; ".join("%s at %s in %s when %s" % (e.name, e.span, e.fn, show(guardbool(e.guard()), 6)[:200]) for e in ev[:3]), val=[guardbool(e.guard()) for e in ev])


def trusted_panic(e):
    """into_bsk / into_bvk re-encode a scalar or point that is canonical by construction, which the type of the
    bytes does not show; the encoding is checked under C12."""
    g = guardbool(e.guard())
    return contains(g, lambda x: x.op == "call" and "reddsa" in str(x.a[0]))


def typed(r, s, f):
    """The items of the iterator that is summed are value sums"""
    return [mk("sym", r.arg(f, 0).a[0], "[%s]" % s.t.path("ValueSum"))]


def made(r, s):
    """Assume-guarantee: every ValueSum made is in the documented range (which the obligations above assume).
    A private helper that does not ensure it by itself is judged at its callers."""
    T_ = s.t.path("ValueSum")
    todo = sorted(root(b.path) for b in r.P.bodies.values() if mentions(b, '"adt": "%s"' % T_, '"fn": "%s"' % T_))
    done = set()
    while todo:
        f = todo.pop()
        if f in done or "::testing" in f or f.split("::")[-1] in ("clone",) or not r.has(f):
            continue
        done.add(f)
        S_ = r.sum(f)
        bad = []
        for t in [S_.ret] + [x for x in S_.final if x is not None]:
            bad += outside(t, T_)
        it = r.P.find(f)[0]
        callers = sorted(set(root(b.path) for b in r.P.bodies.values() if mentions(b, '"rfn": "%s"' % f) and root(b.path) != f))
        if bad and not it.get("pub") and callers:
            todo += callers
            continue
        if bad and all("num::wrapping" in x for x in bad):
            r.undecided("range", f, "every ValueSum it makes lies in [-(2^64-1), 2^64-1]", "; ".join(bad[:3]))
            continue
        r.ob("range", f, not bad, "every ValueSum it makes lies in [-(2^64-1), 2^64-1]", "; ".join(bad[:3]), val=[S_.ret] + [x for x in S_.final if x is not None])


def root(p):
    return p.split("::{closure")[0]


def mentions(body, *keys):
    t = TXT.get(body)
    if t is None:
        t = TXT[body] = json.dumps(body.j["blocks"])
    return any(k in t for k in keys)


TXT = {}


def outside(t, T_):
    bad = []

    def go(x, env):
        if x.op == "case":
            for l, v in x.a[1]:
                go(v, env + ((x.a[0], l),))
        elif x.op == "agg":
            if x.a[0] == T_:
                e = x.a[3]
                for env2, leaf in leaves(e, env):
                    lo, hi = facts(leaf, env2)
                    if lo is None or hi is None or lo < -M or hi > M:
                        if not in_any(leaf, env2):
                            bad.append("%s in [%s, %s]" % (show(leaf, 4)[:120], lo, hi))
            else:
                for v in x.a[3:]:
                    if isinstance(v, T):
                        go(v, env)
    go(t, ())
    return bad


def leaves(e, env):
    if e.op == "case":
        for l, v in e.a[1]:
            yield from leaves(v, env + ((e.a[0], l),))
    else:
        yield env, e


def facts(e, env):
    iv = interval(e)
    lo, hi = iv if iv else (None, None)
    for sc, l in env:
        if sc.op == "lt" and sc.a[0] is e and sc.a[1].op == "int":
            c = sc.a[1].a[0]
            if l == "1":
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = c if lo is None else max(lo, c)
    return lo, hi


def in_any(e, env):
    """every running total was checked: the last one is e (or the sequence is empty and e is the initial value)"""
    for sc, l in env:
        if sc.op == "any" and l == "0":
            b, g = sc.a
            body = [y for y in (e.a if e.op == "add" else (e,)) if y.op == "bigsum" and y.a[0] is b or
                    y.op == "neg" and y.a[0].op == "bigsum" and y.a[0].a[0] is b]
            run = add(t_pre(b, e), *[y.a[1] if y.op == "bigsum" else neg(y.a[0].a[1]) for y in body])
            if body and g is inrange(run, FALSE, TRUE):
                return True
    return False
