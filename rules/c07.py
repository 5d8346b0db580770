"""C07: changing a bundle's authorization or balance type changes nothing else; accessors return the part they name."""
from .prim import *

B, A = "bundle::Bundle", "action::Action"
KEEP = ("nf", "rk", "cmx", "encrypted_note", "cv_net")


def uses(t, f):
    """(state, other arguments) of each call of the parameter f"""
    return [(x.a[2], x.a[3:]) for x in subterms(t) if x.op == "call" and x.a[0] == "apply" and x.a[1] is f]


def check(r):
    s = Spec(r)
    new = lambda t, v, **k: s.t.with_(t, v, **k)
    # value balance
    f = B + "::try_map_value_balance"
    r.fn("balance", f, lambda me, g: (lambda y: case(y, [("Err", err(fld(as_(y, "Err"), "0"))), ("Ok", ok(new("Bundle", me, value_balance=ok_of(y))))]))(call("apply", g, fld(me, "value_balance"))),
         "only the value balance changes, to what the function makes of it; its error is returned")
    # one action
    r.fn("action.map", A + "::map", lambda me, g: new("Action", me, authorization=call("apply", g, fld(me, "authorization"))), "only the authorization changes", private=True)
    r.fn("action.try_map", A + "::try_map", lambda me, g: (lambda y: case(y, [("Err", err(fld(as_(y, "Err"), "0"))), ("Ok", ok(new("Action", me, authorization=ok_of(y))))]))(call("apply", g, fld(me, "authorization"))),
         "only the authorization changes; its error is returned", private=True)
    # whole bundles
    for n in ("map_authorization", "try_map_authorization"):
        f = B + "::" + n
        fallible = n.startswith("try")
        x = r.sum(f)
        me, ctx, each_, step = x.args
        acts, auth = fld(me, "actions"), fld(me, "authorization")
        e = elem(acts)
        u, w = uses(x.ret, each_), uses(x.ret, step)
        if not u or not w:
            # the transformation's result is not in the bundle
            r.ob(n + ".applied", f, False, "every action's authorization, and the bundle's, goes through the transformation", show(x.ret, 4)[:300], val=x.ret)
            continue
        states = {}
        for st, rest in u + w:
            states[st] = mk("sym", "any state", "")
        canon = lambda t: subst(t, states)
        st = mk("sym", "any state", "")
        a_new, b_new = call("apply", each_, st, auth, fld(e, "authorization")), call("apply", step, st, auth)
        if fallible:
            bad = case(a_new, [("Err", I(1)), ("Ok", I(0))])
            made = smap(acts, new("Action", e, authorization=ok_of(a_new)))
            good = case(b_new, [("Err", err(fld(as_(b_new, "Err"), "0"))), ("Ok", ok(new("Bundle", me, actions=made, authorization=ok_of(b_new))))])
            want = case(mk("any", acts, bad), [("0", good), ("1", err(mk("first", acts, bad, fld(as_(a_new, "Err"), "0"))))])
        else:
            want = new("Bundle", me, actions=smap(acts, new("Action", e, authorization=a_new)), authorization=b_new)
        r.eq(n, f, canon(x.ret), want, "every action keeps its place and its parts, its authorization goes through the transformation at its own position, and the rest of the bundle is unchanged"
             + ("; the first error is returned" if fallible else ""))
        # the state passed along: one call per action, in order, then one for the bundle
        acc = mk("accv", acts)
        fold = mk("fold", acts, ctx, mk("mut", "apply", 0, each_, acc, auth, fld(e, "authorization")))
        last = mk("mut", "apply", 0, step, fold, auth)
        got = x.final[1] if x.final[1] is not None else x.args[1]
        if fallible:
            got = next((l for g, l in guards_of(got) if uses_mut(l, step)), got)
        if got is last:
            r.ob(n + ".once", f, True, "each action's authorization is transformed exactly once, in order, then the bundle's")
        else:
            k = sum(1 for y in subterms(got) if y.op == "mut" and y.a[0] == "apply" and y.a[2] is each_)
            if k != 1 or not uses_mut(got, step):
                r.ob(n + ".once", f, False, "each action's authorization is transformed exactly once, in order, then the bundle's", show(got, 6)[:400], val=got)
            else:
                r.undecided(n + ".once", f, "each action's authorization is transformed exactly once", show(got, 6)[:300])
    # accessors and constructors
    names = ("actions", "flags", "value_balance", "anchor", "authorization")
    for k in names:
        r.fn("bundle." + k, B + "::" + k, lambda me: fld(me, k), "an accessor returns its own part")
    r.fn("bundle.from_parts", B + "::from_parts", lambda *a: s.S("Bundle", **dict(zip(names, a))), "a bundle has exactly the parts given")
    for n, k in (("nullifier", "nf"), ("rk", "rk"), ("cmx", "cmx"), ("encrypted_note", "encrypted_note"), ("cv_net", "cv_net"), ("authorization", "authorization")):
        r.fn("action." + n, A + "::" + n, lambda me: fld(me, k), "an accessor returns its own part")
    r.fn("action.from_parts", A + "::from_parts", lambda *a: s.S("Action", **dict(zip(("nf", "rk", "cmx", "encrypted_note", "cv_net", "authorization"), a))), "an action has exactly the parts given")
    for k in ("proof", "binding_signature"):
        r.fn("authorized." + k, "bundle::Authorized::" + k, lambda me: fld(me, k), "an accessor returns its own part")
    r.fn("authorized.from_parts", "bundle::Authorized::from_parts", lambda p, b: s.S("Authorized", proof=p, binding_signature=b), "authorizing data has exactly the parts given")
    r.fn("flags.from_parts", "bundle::Flags::from_parts", lambda a, b: s.S("Flags", spends_enabled=a, outputs_enabled=b), "flags are those given", private=True)
    for k in ("spends_enabled", "outputs_enabled"):
        r.fn("flags." + k, "bundle::Flags::" + k, lambda me: fld(me, k), "a flag read is the flag stored")
    r.fn("proof.new", "circuit::Proof::new", lambda b: s.S("Proof", b), "a proof is the bytes given")
    r.fn("proof.bytes", "<circuit::Proof as std::convert::AsRef<[u8]>>::as_ref", lambda p: fld(p, "0"), "a proof's bytes are its own")


def uses_mut(t, f):
    return any(y.op == "mut" and y.a[0] == "apply" and y.a[2] is f for y in subterms(t))
