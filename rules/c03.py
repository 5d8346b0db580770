"""C03: what the builder accepts, and what building re-checks."""
from .build import *
from .c15 import root
from .c02 import inrange


def no_anchor(s, spend, anchor):
    """the spend's value is not zero and its path does not lead from its commitment to the anchor"""
    note = fld(spend, "note")
    cm = some_of(s.cm_of(note))
    rt = root(s, fld(spend, "merkle_path", "auth_path"), fld(spend, "merkle_path", "position"), s.x_of(cm))
    return b_and(b_not(t_eq(fld(note, "value", "0"), I(0))), b_not(mk("eq", *sorted((rt, fld(anchor, "0")), key=lambda x: x.id))))


def owner(r, s, f, a):
    """the scope (option) of the key that owns the address"""
    from .c21 import iff_
    out = NONE
    for sc in ("Internal", "External"):
        S_ = s.scope(sc)
        dk, ivk = s.dk(f, S_), s.ivk_scalar(f, s.rivk(f, S_))
        regen = s.addr(s.diversifier(dk, s.div_index(dk, fld(a, "d", "0"))), ivk)
        c = b_and(t_eq(fld(regen, "d", "0"), fld(a, "d", "0")), t_eq(fld(regen, "pk_d", "0", "0"), fld(a, "pk_d", "0", "0")))
        out = iff_(c, some(S_), out)
    return out


def bt_flags(s, bt):
    return case(bt, [("Transactional", fld(as_(bt, "Transactional"), "flags")), ("Coinbase", s.S("Flags", spends_enabled=FALSE, outputs_enabled=TRUE))])


def check(r):
    s = Spec(r)
    add_calls(r, s)
    building(r, s)
    r.fn("flags", "builder::BundleType::flags", lambda bt: bt_flags(s, bt), "the flags of a bundle type: its own, or spends disabled for coinbase")
    for n, (a, b) in (("ENABLED", (1, 1)), ("SPENDS_DISABLED", (0, 1)), ("OUTPUTS_DISABLED", (1, 0))):
        r.fn("flags." + n, "bundle::Flags::" + n, s.S("Flags", spends_enabled=I(a), outputs_enabled=I(b)), "the named flag sets")
    for n, (a, b) in (("DEFAULT", (1, 1)), ("DISABLED", (0, 0))):
        r.fn("type." + n, "builder::BundleType::" + n, s.t.new("BundleType", variant="Transactional", flags=s.S("Flags", spends_enabled=I(a), outputs_enabled=I(b)), bundle_required=FALSE),
             "the named bundle types")
    for n in ("spends_enabled", "outputs_enabled"):
        r.fn("flag." + n, "bundle::Flags::" + n, lambda f: fld(f, n), "a flag read is the flag stored")
    r.fn("new", "builder::Builder::new", lambda bt, a: s.S("Builder", spends=arr(), outputs=arr(), bundle_type=bt, anchor=a), "a new builder has nothing in it")
    for v, f in (("spends", "builder::Builder::spends"), ("outputs", "builder::Builder::outputs")):
        r.fn("view." + v, f, lambda me: fld(me, v), "the builder shows what was recorded")
    for n, f, p in (("in", "<builder::SpendInfo as builder::InputView<()>>::value", ("note", "value", "0")), ("out", "<builder::OutputInfo as builder::OutputView>::value", ("value", "0"))):
        r.fn("view.value." + n, f, lambda me: call("From::from@V<-u64", fld(me, *p)), "an item shows its own value")


def add_calls(r, s):
    f = "builder::SpendInfo::new"

    def info(fvk, note, path, sc):
        return s.S("SpendInfo", dummy_sk=NONE, fvk=fvk, scope=sc, note=note, merkle_path=path)

    r.fn("spend.info", f, lambda fvk, note, path: over(owner(r, s, fvk, fld(note, "recipient")), NONE, lambda sc: some(info(fvk, note, path, sc))),
         "a spend is described by the values supplied, with the scope of the key that owns the note; nothing if none does")
    f = "builder::Builder::add_spend"
    me, fvk, note, path = r.sum(f).args
    E = lambda v: err(s.t.new("SpendError", variant=v))
    own = owner(r, s, fvk, fld(note, "recipient"))
    spend = info(fvk, note, path, some_of(own))
    on = fld(bt_flags(s, fld(me, "bundle_type")), "spends_enabled")

    def tree(off, foreign, wrong, fine):
        acc = lambda sc: iff(no_anchor(s, info(fvk, note, path, sc), fld(me, "anchor")), wrong, fine(sc))
        return iff(on, over(own, foreign, acc), off)
    r.eq("add_spend", f, r.sum(f).ret, tree(E("SpendsDisabled"), E("FvkMismatch"), E("AnchorMismatch"), lambda sc: ok(UNIT)),
         "a spend is accepted exactly when spends are enabled, the key owns the note, and a note with value has the builder's anchor; refused with the reason")
    rec = lambda sc: s.t.with_("Builder", me, spends=concat(fld(me, "spends"), arr(info(fvk, note, path, sc))))
    r.eq("add_spend.records", f, state(r.sum(f), 0), tree(me, me, me, rec), "an accepted spend is recorded last with the values supplied; a refused one changes nothing")

    memo = lambda m: case(m, [("None", pad_memo()), ("Some", some_of(m))])
    oi = lambda o, a, v, m: s.S("OutputInfo", ovk=o, recipient=a, value=v, memo=memo(m))
    r.fn("output.info", "builder::OutputInfo::new", oi, "an output is described by the values supplied, with the empty memo when none is")
    f = "builder::Builder::add_output"
    S_ = r.sum(f)
    me = S_.args[0]
    on = fld(bt_flags(s, fld(me, "bundle_type")), "outputs_enabled")
    r.eq("add_output", f, S_.ret, iff(on, ok(UNIT), err(s.t.new("OutputError"))), "an output is accepted exactly when outputs are enabled")
    r.eq("add_output.records", f, state(S_, 0), iff(on, s.t.with_("Builder", me, outputs=concat(fld(me, "outputs"), arr(oi(*S_.args[1:])))), me),
         "an accepted output is recorded last with the values supplied; a refused one changes nothing")


def over(o, none, f):
    """f of the value of a literal option"""
    return map_leaves(o, lambda l: f(fld(l, "0")) if is_agg(l, None, "Some") else none)


def pad_memo():
    """ZIP 302: no memo is 0xF6 followed by zeros"""
    return concat(arr(I(0xF6)), mk("repeat", I(0), I(511)))


def state(S_, i):
    """what the i-th argument (a mutable reference) refers to afterwards"""
    x = S_.final[i]
    return S_.args[i] if x is None else x


def building(r, s):
    spend_ok = None
    for c in shape(r):
        if not pieces(r, c, "pieces"):
            continue
        n = "[%s]" % c.name
        succ = map_leaves(c.ret, lambda l: TRUE if is_agg(l, None, "Ok") else FALSE)
        on_s, on_o = fld(c.flags, "spends_enabled"), fld(c.flags, "outputs_enabled")
        ls0 = c.under(t_eq(length(c.spends), I(0)))
        lo0 = c.under(t_eq(length(c.outputs), I(0)))
        want_s = c.under(b_or(on_s, ls0))
        want_a = c.under(b_not(mk("any", c.spends, no_anchor(s, elem(c.spends), c.anchor))))
        want_o = c.under(b_or(on_o, lo0))
        for oid, cond, txt in (("spends-off", want_s, "no bundle has a requested spend when spends are disabled"),
                               ("anchors", want_a, "no bundle is built over a spend with value whose path does not lead to the anchor"),
                               ("outputs-off", want_o, "no bundle has a requested output when outputs are disabled")):
            bad = b_and(succ, b_not(cond))
            r.eq(oid + n, B, bad, FALSE, txt)
        v = add(fld(c.S, "note", "value", "0"), neg(fld(c.O, "value", "0")))
        W = bigsum(c.b, v)
        run = mk("any", c.b, inrange(add(v, t_pre(c.b, W)), FALSE, TRUE))
        tv = call("TryFrom::try_from@V<-i64", W)
        fit = iff(t_lt(W, I(-2**63)), FALSE, iff(t_lt(W, I(2**63)), case(tv, [("Ok", TRUE), ("Err", FALSE)]), FALSE))
        want = b_and(want_s, b_and(want_a, b_and(want_o, b_and(b_not(run), fit))))
        zero = c.under(t_eq(c.n, I(0)))
        r.eq("admits" + n, B, assume(succ, zero, "0") if zero.op != "int" else succ, assume(want, zero, "0") if zero.op != "int" else want,
             "a bundle is built exactly when the items are permitted and the values are in range")
    # a coinbase bundle never has a real spend
    rng, anchor, spends, outputs, flags = syms(r, s)
    x = r.sum(B, values=[rng, anchor, s.t.new("BundleType", variant="Coinbase"), spends, outputs]).ret
    x = assume(x, t_eq(length(spends), I(0)), "0")
    r.eq("coinbase", B, map_leaves(x, lambda l: TRUE if is_agg(l, None, "Ok") else FALSE), FALSE, "no coinbase bundle is built over a requested spend")
