"""C05: batch validation accepts only if every queued signature and proof is valid; nothing added is skipped.

The queue is never looked at directly: what counts is what `validate` hands to the two verifiers for the
state reached. For an arbitrary state s and an arbitrary bundle b, validate(add(s, b)) must hand over
what validate(s) does and, besides, exactly the signatures and the proof of b; the fresh state hands over
nothing and is valid. By induction that covers every history of additions."""
from .prim import *
from oflow.seqs import is_arr, length
from oflow.terms import rebuild
from .c04 import Inst
from .c01 import bvk_of
from .c06 import unrand

BV = "bundle::batch::BatchValidator::"
VER = "reddsa::batch::Verifier::verify"
QUEUE = "reddsa::batch::Verifier::queue"
ADDP = "halo2_proofs::plonk::BatchVerifier::add_proof"
FIN = "halo2_proofs::plonk::BatchVerifier::finalize"
VKB = "From::from@reddsa::VerificationKeyBytes<%s><-reddsa::VerificationKey<%s>"


def one(t, pred):
    out = {x for x in subterms(t) if pred(x)}
    return out.pop() if len(out) == 1 else None


def handed(t):
    """what a validation hands to the signature verifier and to the proof verifier, and with which key"""
    v = one(t, lambda x: x.op == "rand" and x.a[0] == VER)
    p = one(t, lambda x: x.op == "call" and x.a[0] == FIN)
    if v is None or p is None or len(v.a) != 4 or len(p.a) != 4:
        return None
    return v, v.a[3], p, p.a[1]


def peel(t, stop, name):
    """the list of what was put in after `stop`, or None"""
    out = []
    while t is not stop:
        if t.op == "mut" and t.a[0] == name and t.a[1] == 0:
            out.append((None, t.a[3:]))
            t = t.a[2]
        elif t.op == "fold":
            b, init, body = t.a[:3]
            if b.op == "concat":
                t = unfold(b, init, body)
                if t is None:
                    return None
                continue
            one_ = peel(body, mk("accv", b), name)
            if one_ is None or any(s is not None for s, _ in one_):
                return None
            out += [(b, x) for _, x in one_]
            t = init
        else:
            return None
    return out


class Cond:
    """what is put in under a condition"""
    def __init__(self, cond, items):
        self.cond, self.items = cond, items


def peels(t, stop, name):
    """peel, under each condition where it depends on one"""
    if t.op != "case":
        return peel(t, stop, name)
    return [Cond(g, peel(l, stop, name)) for g, l in guards_of(t)]


def unfold(b, init, body):
    """a fold over a concatenation, part by part"""
    for p in b.a:
        if is_arr(p):
            for x in p.a[3:]:
                init = subst(body, {elem(b): x, mk("accv", b): init})
        else:
            init = mk("fold", base(p), init, subst(body, {elem(b): elem(p), mk("accv", b): mk("accv", base(p))}))
    return None if contains(init, b) else init


def same(r, a, b):
    try:
        return Eq(r.P.adts).eq(a, b) is None
    except Budget:
        return False


def count(t, stop, name):
    """how many items t holds more than stop, as a term in the lengths of the lists"""
    if t is stop or t.op == "call" and t.a[0].endswith("Verifier::new"):
        return ZERO_
    if t.op == "mut" and t.a[0] == name and t.a[1] == 0:
        n = count(t.a[2], stop, name)
        return None if n is None else rebuild("add", (n, I(1)))
    if t.op == "fold":
        b, init, body = t.a[:3]
        k, n = count(body, mk("accv", b), name), count(init, stop, name)
        if k is None or n is None or contains(k, elem(b)) or contains(k, idx(b)):
            return None
        return rebuild("add", (n, rebuild("mul", (k, length(b)))))
    if t.op == "case":
        s, arms = t.a[0], arms_of(t)
        ks = [(l, count(v, stop, name)) for l, v in arms]
        return None if any(k is None for _, k in ks) else case(s, ks)
    return None


ZERO_ = I(0)


def number(t):
    """the integer a term over known lengths comes to"""
    if t.op == "int":
        return t.a[0]
    if t.op == "case":
        s = t.a[0]
        if s.op == "lt":
            x, y = number(s.a[0]), number(s.a[1])
            if x is None or y is None:
                return None
            return next((number(v) for l, v in arms_of(t) if l == int(x < y)), None)
        return None
    xs = [number(x) for x in t.a] if all(hasattr(x, "op") for x in t.a) else []
    if xs and None not in xs:
        if t.op == "add":
            return sum(xs)
        if t.op == "mul":
            return xs[0] * xs[1]
        if t.op == "min":
            return min(xs)
        if t.op == "max":
            return max(xs)
        if t.op == "sub":
            return xs[0] - xs[1]
    return None


def miscount(after, before, stop, name, acts):
    """lengths of the lists at which an addition does not add one item for each action and one more"""
    n, m = count(after, stop, name), count(before, stop, name)
    if n is None or m is None:
        return None
    la = length(acts)
    ls = sorted({x for t in (n, m) for x in subterms(t) if x.op == "len" and x is not la}, key=show)
    if len(ls) != 1:
        return None
    for q in (2, 3, 5, 16, 17, 40, 65, 130, 257, 300, 1025, 4097, 10001, 65537, 70000, 1 << 20):
        for k in (1, 2, 17, 300):
            w = {ls[0]: I(q), la: I(k)}
            x, y = number(subst(n, w)), number(subst(m, w))
            if x is not None and y is not None and x != y + k + 1:
                return "with %d items queued, adding a bundle of %d actions leaves %d items to verify, not %d" % (q, k, x, y + k + 1)
    return None


def match(r, oid, f, got, want, rule, lost=None):
    """the same contributions, in any order"""
    if isinstance(got, list) and got and isinstance(got[0], Cond):
        for g in got:
            if g.items is not None and len(g.items) < len(want):
                return r.ob(oid, f, False, rule, "only %d of %d are put in when %s" % (len(g.items), len(want), show(g.cond, 5)[:300]))
        for g in got:
            match(r, oid + "?", f, g.items, want, rule)
        return
    if got is None and lost:
        return r.ob(oid, f, False, rule, lost)
    if got is None:
        return r.undecided(oid, f, rule, "the way items are put in has an unknown shape")
    left = list(got)
    for w in want:
        hit = next((g for g in left if g[0] is w[0] and len(g[1]) == len(w[1]) and all(same(r, p, q) for p, q in zip(g[1], w[1]))), None)
        if hit is None:
            return r.ob(oid, f, False, rule, "not put in: %s ; put in: %s" % ("; ".join(show(x, 6) for x in w[1])[:500], "; ".join(show(x, 6) for g in left for x in g[1])[:900]), val=[x for g in left for x in g[1]])
        left.remove(hit)
    r.ob(oid, f, not left, rule, "put in besides: %s" % [show(x, 5)[:200] for g in left for x in g[1]], val=[x for g in left for x in g[1]])


def check(r):
    k = Inst(r)
    s = k.s
    new, add_, val, dflt = BV + "new", BV + "add_bundle", BV + "validate", "<bundle::batch::BatchValidator as std::default::Default>::default"
    vs = r.sum(val)
    me, vk, rng = vs.args
    h0 = handed(vs.ret)
    if h0 is None:
        return r.undecided("shape", val, "validation hands signatures to the signature verifier and proofs to the proof verifier", show(vs.ret, 4)[:300])
    sa = r.sum(add_)
    _, bundle, sighash = sa.args
    # an arbitrary state, by its parts
    nm = r.P.adts[s.t.path("BatchValidator")]["vs"][0]["f"]
    st = s.t.new("BatchValidator", *[fld(me, n[0]) for n in nm])
    after = r.sum(add_, values=[st, bundle, sighash]).final[0]
    ret = r.sum(val, values=[after, vk, rng]).ret
    h = handed(ret)
    if h is None:
        return r.undecided("shape", val, "validation after an addition hands over signatures and proofs", show(ret, 4)[:300])
    v, q, p, f = h
    r.eq("accept", val, ret, case(v, [("Err", FALSE), ("Ok", p)]), "once anything was added, validation succeeds only if both verifiers do")
    r.eq("key", val, p, call(FIN, f, fld(vk, "params"), fld(vk, "vk")), "proofs are checked with the key given and its parameters")
    acts = fld(bundle, "actions")
    e = elem(acts)
    item = lambda kind, T, key, sig: call("reddsa::batch::Item::from_" + kind, call(VKB % (T, T), key), sig, sighash)
    want = [(base(acts), (item("spendauth", AUTH, fld(e, "rk", "0"), fld(e, "authorization", "0")),)),
            (None, (item("binding", BIND, fld(bvk_of(s, acts, call("Into::into@V<-i64", fld(bundle, "value_balance"))), "0"), fld(bundle, "authorization", "binding_signature", "0")),))]
    match(r, "signatures", add_, peels(q, h0[1], QUEUE), want,
          "an addition adds, to what is verified, every action's signature under its own key, and the balance signature under the bundle's balance key, over the signature hash given",
          miscount(q, h0[1], None, QUEUE, acts))
    match(r, "proofs", add_, peels(f, h0[3], ADDP), [(None, (k.rows(k.of_bundle(bundle)), fld(bundle, "authorization", "proof", "0")))],
          "an addition adds, to what is verified, the bundle's proof with the statements of all its actions")
    for n in (new, dflt):
        fresh = r.sum(n).ret
        x = r.sum(val, values=[fresh, vk, rng]).ret
        if x is not TRUE:
            hx = handed(x)
            if hx is None:
                r.ob("fresh", n, False, "a batch to which nothing was added is valid", show(x, 4)[:200], val=x)
            else:
                r.eq("fresh.signatures", n, hx[1], call("reddsa::batch::Verifier::new"), "a fresh batch holds no signatures")
                r.eq("fresh.proofs", n, hx[3], call("halo2_proofs::plonk::BatchVerifier::new"), "a fresh batch holds no proofs")
        else:
            r.ob("fresh", n, True, "a batch to which nothing was added is valid")
        q1 = handed(r.sum(val, values=[r.sum(add_, values=[fresh, bundle, sighash]).final[0], vk, rng]).ret)
        if q1 is None:
            r.undecided("first", n, "what a fresh batch holds", "")
            continue
        def root(t, name):
            while t.op in ("mut", "fold") or t.op == "case" and False:
                t = t.a[2] if t.op == "mut" else t.a[1]
            return t
        r.eq("first.signatures", n, root(q1[1], QUEUE), call("reddsa::batch::Verifier::new"), "the signature verifier starts empty")
        pr = root(q1[3], ADDP)
        ok_ = pr.op == "call" and pr.a[0] in ("halo2_proofs::plonk::BatchVerifier::new", "Default::default@halo2_proofs::plonk::BatchVerifier<pasta_curves::EqAffine>") or pr.op == "call" and "efault" in pr.a[0] and "BatchVerifier" in pr.a[0]
        r.ob("first.proofs", n, ok_, "the proof verifier starts empty", show(pr, 3), val=pr)
