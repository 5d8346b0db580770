"""C01: a bundle the builder returns balances: value balance, binding key and net value commitments agree."""
from .build import *
from oflow.ranges import prune, t_ovf

BK = "From::from@reddsa::VerificationKey<%s><-reddsa::SigningKey<%s>" % (BIND, BIND)


def skey(s, x, T=BIND):
    return ok_of(call("TryFrom::try_from@reddsa::SigningKey<%s><-[u8; 32]" % T, s.repr_q(x)))


def vkey(s, pt, T=BIND):
    return ok_of(call("TryFrom::try_from@reddsa::VerificationKey<%s><-[u8; 32]" % T, s.pt_bytes(pt)))


def vk32(v, T=BIND):
    return call("From::from@[u8; 32]<-reddsa::VerificationKey<%s>" % T, v)


def t_sum(b, body):
    return bigsum(b, body)


def panic_at(c, match):
    return [e for e in c.sum.events if e.kind == "panic" and match(e)]


def check(r):
    s = Spec(r)
    for c in shape(r):
        if not pieces(r, c, "pieces"):
            continue
        n = "[%s]" % c.name
        S_, O_ = c.S, c.O
        v = add(fld(S_, "note", "value", "0"), neg(fld(O_, "value", "0")))
        W = bigsum(c.b, v)
        r.eq("balance" + n, B, c.vb, ok_of(call("TryFrom::try_from@V<-i64", W)), "the value balance is the sum of the values spent minus the sum of the values created")
        rcv = fld(known(c, "rcv"), "0")
        r.eq("cv" + n, B, fld(c.act, "cv_net", "0"), s.value_commit(v, rcv), "each net value commitment commits to the action's net value with the trapdoor the witness has")
        r.eq("old" + n, B, known(c, "v_old"), fld(S_, "note", "value"), "the witness spends the note's value")
        r.eq("new" + n, B, known(c, "v_new"), fld(O_, "value"), "the witness creates the output's value")
        r.eq("bsk" + n, B, fld(c.bsk, "0"), skey(s, bigsum(c.b, rcv)), "the binding key is the sum of the trapdoors")
        consistency(r, s, c, n, W, v, rcv)
    # what a verifier computes
    f = "bundle::Bundle::binding_validating_key"
    r.fn("bvk", f, lambda me: bvk_of(s, fld(me, "actions"), call("Into::into@V<-i64", fld(me, "value_balance"))),
         "the binding validating key is the sum of the net value commitments minus a commitment to the value balance")
    r.fn("vb", "bundle::Bundle::value_balance", lambda me: fld(me, "value_balance"), "the balance returned is the one stored")
    r.fn("bvk.enc", "value::ValueCommitment::into_bvk", lambda v: s.S("VerificationKey", vkey(s, fld(v, "0"))), "a commitment's encoding as a validating key", private=True)
    r.fn("bsk.enc", "value::ValueCommitTrapdoor::into_bsk", lambda v: s.S("SigningKey", skey(s, fld(v, "0"))), "a trapdoor's encoding as a signing key", private=True)
    whole(r, s)
    from .c02 import reported
    reported(r, s)


def bvk_of(s, actions, bal):
    b = base(actions)
    cv = bigsum(b, fld(elem(actions), "cv_net", "0"))
    return s.S("VerificationKey", vkey(s, t_sub(cv, s.value_commit(bal, ZERO))))


def consistency(r, s, c, n, W, v, rcv):
    """Whenever a bundle is returned, the validating key of its binding key is the one a verifier computes."""
    left = vk32(call(BK, fld(c.bsk, "0")))
    cvs = fld(c.act, "cv_net", "0")
    right = vk32(vkey(s, t_sub(bigsum(c.b, cvs), s.value_commit(W, ZERO))))
    bad, E, seen = [], t_eq(left, right), set()
    cond = [c.under(guardbool(e.guard())) for e in c.sum.events if e.kind == "panic"] + [guardbool(c.guard)]
    for g in cond:
        for x in subterms(g):
            if x.op == "eq" and left in x.a and x not in seen:
                seen.add(x)
                o = [y for y in x.a if y is not left]
                try:
                    same = o and Eq(r.P.adts).eq(o[0], right) is None
                except Budget:
                    return r.undecided("consistent" + n, B, "binding key consistency", "the comparison is too large")
                if same:
                    E = x
    bad = [g for g in cond[:-1] if contains(g, lambda x: x is E)]
    g = cond[-1]
    ok_ = assume(g, E, "0")
    for p in bad:
        ok_ = b_and(ok_, b_not(assume(p, E, "0")))
    r.ob("consistent" + n, B, ok_ is FALSE, "no bundle is returned unless its binding key matches its commitments and value balance",
         "returned with a mismatch when " + show(ok_, 5)[:400], val=(ok_, c.bsk, c.b))


def whole(r, s):
    f = "builder::Builder::build"
    if not r.has(f):
        raise Missing(f)
    me, rng = r.sum(f).args
    x = r.sum(f)
    want = r.app(B, rng, fld(me, "anchor"), fld(me, "bundle_type"), fld(me, "spends"), fld(me, "outputs"))
    r.eq("builder", f, x.ret, want, "a builder's bundle is built from exactly its own anchor, type, spends and outputs")
