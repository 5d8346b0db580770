"""C04: proofs are created and checked against the bundle's own public data, each value in its own slot."""
from .prim import *

PRE = "builder::<impl bundle::Bundle<builder::InProgress<"
CREATE = PRE + "builder::Unproven, S>, V>>::create_proof"
SYN = "<circuit::Circuit as halo2_proofs::plonk::Circuit<pasta_curves::Fp>>::synthesize"
PARTS = ("anchor", "cv_net", "nf_old", "rk", "cmx", "enable_spend", "enable_output")
P_ = "halo2_proofs::plonk::"
TR = "halo2_proofs::transcript::"


class Inst:
    """The statement of an action: nine field elements, in the order of the protocol's primary input."""

    def __init__(self, r):
        self.r, self.s = r, Spec(r)

    def row(self, i):
        s, f = self.s, lambda *p: fld(i, *p)
        rk = s.from_pt(s.vk_bytes(f("rk", "0")))
        return arr(f("anchor", "0"), s.x_of(f("cv_net", "0")), s.y_of(f("cv_net", "0")), f("nf_old", "0"),
                   self.co("x", rk), self.co("y", rk), f("cmx", "0"), s.u64p(iff(f("enable_spend"), I(1), I(0))), s.u64p(iff(f("enable_output"), I(1), I(0))))

    def co(self, c, p):
        """coordinate of a decoded verification key"""
        q = some_of(p)
        return (self.s.x_of if c == "x" else self.s.y_of)(q)

    def rows(self, instances):
        return smap(instances, arr(self.row(elem(instances))))

    def of_action(self, act, flags, anchor):
        f = lambda *p: fld(act, *p)
        return self.s.S("Instance", anchor=anchor, cv_net=f("cv_net"), nf_old=f("nf"), rk=f("rk"), cmx=f("cmx"),
                        enable_spend=fld(flags, "spends_enabled"), enable_output=fld(flags, "outputs_enabled"))

    def of_bundle(self, b):
        acts = fld(b, "actions")
        return smap(acts, self.of_action(elem(acts), fld(b, "flags"), fld(b, "anchor")))

    def verify(self, vk, proof, instances):
        pr = fld(vk, "params")
        return call(P_ + "verify_proof", pr, fld(vk, "vk"), call(P_ + "SingleVerifier::new", pr), self.rows(instances), call(TR + "Blake2bRead::init", fld(proof, "0")))

    def add(self, batch, proof, instances):
        return mk("mut", P_ + "BatchVerifier::add_proof", 0, batch, self.rows(instances), fld(proof, "0"))


def check(r):
    k = Inst(r)
    s = k.s
    r.fn("action", "bundle::<impl action::Action<T>>::to_instance", lambda a, flags, anchor: k.of_action(a, flags, anchor), "an action's statement holds its own public fields", private=True)
    r.fn("bundle", "bundle::Bundle::to_instances", lambda b: k.of_bundle(b), "one statement per action, in order, each with the bundle's flags and anchor", private=True)
    r.fn("parts", "circuit::Instance::from_parts", lambda *a: s.S("Instance", **dict(zip(PARTS, a))), "a statement holds the parts given, each in its place")
    r.fn("row", "circuit::Instance::to_halo2_instance", lambda i: arr(k.row(i)), "every part has its own slot of the primary input", private=True)
    r.fn("verify", "circuit::Proof::verify", lambda p, vk, i: k.verify(vk, p, i), "a proof is checked against all its statements, with the given key's own parameters")
    r.fn("bundle.verify", "bundle::Bundle::verify_proof", lambda b, vk: k.verify(vk, fld(b, "authorization", "proof"), k.of_bundle(b)),
         "a bundle's proof is checked against the statements of the bundle's own actions, and is accepted only if that check succeeds")
    f = "circuit::Proof::add_to_batch"
    x = r.sum(f)
    r.eq("batch", f, x.final[1], k.add(x.args[1], x.args[0], x.args[2]), "a proof is queued with all its statements, and whole")
    queued(r, k)
    create(r, k)
    slots(r)


def queued(r, k):
    """a bundle's statements in a batch"""
    f = "bundle::batch::BatchValidator::add_bundle"
    x = r.sum(f)
    b = x.args[1]
    puts = {y for y in subterms(x.final[0]) if y.op == "mut" and y.a[0] == P_ + "BatchVerifier::add_proof" and len(y.a) == 5}
    rule = "a bundle's proof is queued with the statements of the bundle's own actions"
    if len(puts) != 1:
        return r.undecided("bundle.batch", f, rule, "%d additions of a proof" % len(puts))
    y = puts.pop()
    r.eq("bundle.batch", f, tup(y.a[3], y.a[4]), tup(k.rows(k.of_bundle(b)), fld(b, "authorization", "proof", "0")), rule)


def rands(t, name):
    out = []
    for x in subterms(t):
        if x.op == "rand" and x.a[0] == name:
            out.append(x)
    return out


def created(r, k, f, t, pk, circuits, instances, ok, err, rule):
    d = rands(t, P_ + "create_proof")
    if len(d) != 1:
        return r.ob("create", f, False, rule, "expected one proof computation, found %d" % len(d), val=t)
    d = d[0]
    args = [fld(pk, "params"), fld(pk, "pk"), circuits, k.rows(instances), call(TR + "Blake2bWrite::init", arr())]
    if len(d.a) - 3 != len(args):
        return r.undecided("create", f, rule, "the proof computation has an unknown shape")
    for n, a, b in zip(("parameters", "key", "witnesses", "statements", "transcript"), d.a[3:], args):
        r.eq("create." + n, f, a, b, "the proof is made with the right " + n)
    proof = k.s.S("Proof", call(TR + "Blake2bWrite::finalize", mk("mut", P_ + "create_proof", 4, d)))
    r.eq("create.result", f, t, case(d, [("Err", err(fld(as_(d, "Err"), "0"))), ("Ok", ok(proof))]), rule)


def create(r, k):
    s = k.s
    f = "circuit::Proof::create"
    x = r.sum(f)
    pk, circuits, instances = x.args[:3]
    created(r, k, f, x.ret, pk, circuits, instances, ok, err,
            "the proof returned is the transcript written by the proof computation, or its error")
    f = CREATE
    x = r.sum(f)
    b, pk = x.args[:2]
    acts = fld(b, "actions")
    au = fld(b, "authorization")
    circuits = fld(au, "proof", "circuits")
    okb = lambda p: ok(s.t.with_("Bundle", b, authorization=s.S("InProgress", proof=p, sigs=fld(au, "sigs"))))
    created(r, k, f, x.ret, pk, circuits, k.of_bundle(b), okb, lambda e: err(s.t.new("BuildError", e, variant="Proof")),
            "the bundle is proven with the statements it will be verified against, and is otherwise unchanged")


# what each public input is tied to in the circuit: (slot, how the circuit obtains the cell)
def slots(r):
    f = SYN
    if not r.has(f):
        raise Missing(f)
    x = r.sum(f)
    got = {}
    for e in x.events:
        if e.kind != "call":
            continue
        n = e.name.split("@")[0]
        if n == "Layouter::constrain_instance":
            _, cell, col, row = e.args[:4]
            got.setdefault(row, []).append(("cell", cell, col, e))
        elif n == "halo2_proofs::circuit::Region::assign_advice_from_instance":
            got.setdefault(e.args[3], []).append(("advice", e.args[4], e.args[2], e))
    prim = fld(x.args[1], "primary")
    r.slots = got
    n = sum(len(v) for v in got.values())
    r.ob("slots.used", f, set(got) == {I(i) for i in range(9)} and n == 9, "the circuit ties every slot of the statement exactly once", "slots: %s" % sorted(show(q, 2) for q in got))
    for row, v in got.items():
        for kind, what, col, e in v:
            r.eq("slots.column.%s" % show(row, 1), f, col, prim, "public inputs are read from the one instance column")
