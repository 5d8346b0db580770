"""C17: padding, shuffling and metadata of built bundles."""
from .build import *
from oflow.seqs import is_arr


def check(r):
    s = Spec(r)
    for c in shape(r):
        if not pieces(r, c, "pieces"):
            for q in getattr(c, "b", None) is not None and c.b.op == "zip" and c.b.a or ():
                if q.op == "upd" and q.a[1] == ("s",) and q.a[2].op == "rng" and contains(q.a[-1], lambda x: x.op == "perm") and q.a[2].a[1] is not length(q.a[0]):
                    r.ob("shuffle[%s]" % c.name, B, False, "spends and outputs are each shuffled, by different draws", "only a part is shuffled: " + show(q, 5)[:300])
                    break
                bad = unshuffled(q, c)
                if bad:
                    r.ob("shuffle[%s]" % c.name, B, False, "spends and outputs are each shuffled, by different draws", bad + ": " + show(q, 5)[:300])
                    break
            continue
        n = "[%s]" % c.name
        (P1, A), (P2, Bq) = c.As, c.Bs
        for k, X, want in (("spends", A, c.spends), ("outputs", Bq, c.outputs)):
            r.eq("count.%s%s" % (k, n), B, c.under(length(X)), c.under(c.n), "as many %s, with padding, as the bundle has actions" % k)
            parts = X.a[0].a if X.op == "take" and X.a[0].op == "concat" else X.a if X.op == "concat" else (X,)
            okk = parts[0] is want and len(parts) <= 2 and not (len(parts) == 2 and contains(parts[1], lambda x: x is want and False))
            r.ob("all.%s%s" % (k, n), B, okk, "every requested item is in the list, before the padding", show(X, 4)[:300], val=X)
            pad = parts[1] if len(parts) == 2 else None
            if pad is not None:
                padding(r, s, k + n, pad, k)
        if c.under(t_lt(c.n, I(2), True)) is TRUE:
            continue
        if P1.op != "perm" or P2.op != "perm":
            r.ob("shuffle" + n, B, False, "spends and outputs are each shuffled, by different draws", "in the order requested: " + show(c.b, 4)[:300], val=c.b)
            continue
        pids = [P1.a[1], P2.a[1]]
        r.ob("shuffle" + n, B, P1.op == "perm" and P2.op == "perm" and P1.a[0] is A and P2.a[0] is Bq and P1.a[1] is not P2.a[1],
             "spends and outputs are each shuffled, by different draws", "%s / %s" % (show(P1.a[1], 3), show(P2.a[1], 3)), val=(P1, P2))
        r.ob("shuffle.rng" + n, B, all(p.op == "permid" and contains(p, lambda x: x is c.rng) for p in pids), "shuffling uses the caller's random source", show(pids[0], 3), val=pids)
        r.ob("pairs" + n, B, c.b.op == "zip" and set(c.b.a) == {P1, P2}, "the i-th action pairs the i-th shuffled spend with the i-th shuffled output", show(c.b, 4)[:300], val=c.b)
        r.eq("flags" + n, B, c.bflags, c.flags, "the bundle has its type's flags")
        r.eq("anchor" + n, B, c.banchor, c.anchor, "the bundle has the requested anchor")
        for f, X, P, items in (("spend_indices", A, P1, c.spends), ("output_indices", Bq, P2, c.outputs)):
            meta(r, c, n, f, X, P, items)
        zero = t_eq(length(c.outputs), I(0))
        if c.name == "coinbase":
            r.eq("nonzero" + n, B, assume(guardbool(c.guard), zero, "1"), FALSE, "no bundle without actions")
    none(r, s)
    f = "builder::BundleType::num_actions"

    def count(bt, ls, lo):
        t = as_(bt, "Transactional")
        off = b_or(b_and(b_not(fld(t, "flags", "spends_enabled")), nz(ls)), b_and(b_not(fld(t, "flags", "outputs_enabled")), nz(lo)))
        some_ = b_or(fld(t, "bundle_required"), b_or(nz(ls), nz(lo)))
        return case(bt, [("Transactional", iff_(off, mk("refused"), iff_(some_, ok(HOOK_max(ls, lo, I(2))), ok(I(0))))),
                         ("Coinbase", iff_(nz(ls), mk("refused"), ok(lo)))])
    x = r.sum(f)
    r.eq("num_actions", f, map_leaves(x.ret, lambda l: mk("refused") if is_agg(l, None, "Err") else l), count(*x.args),
         "the number of actions announced for a bundle type is the larger of the counts, at least two when there is anything or a bundle is required; outputs alone for coinbase")
    for f, k in (("spend_action_index", "spend_indices"), ("output_action_index", "output_indices")):
        p = "builder::BundleMetadata::" + f
        r.fn(f, p, lambda me, i: iff(t_lt(i, length(fld(me, k))), some(index(fld(me, k), i)), NONE), "an item's action index is the one recorded for it")
    r.fn("empty", "builder::BundleMetadata::empty", s.S("BundleMetadata", spend_indices=mk("repeat", I(0), I(0)), output_indices=mk("repeat", I(0), I(0))), "nothing is recorded for an empty bundle")


def unshuffled(q, c):
    """why the order of a list of requested items is not a random one, when that is plain"""
    def random(t):
        return contains(t, lambda x: x.op in ("rand", "rng", "permid") or x is c.rng)
    if q.op == "mut" and "::sort" in q.a[0] and not any(random(x) for x in q.a[3:]):
        return "put in an order of its own after the shuffle"
    if q.op == "map":
        return unshuffled(q.a[0], c)
    parts, t = [], [q]
    while t:
        x = t.pop()
        if x in (c.spends, c.outputs):
            parts.append(x)
        elif x.op == "map" or x.op in ("slice", "rev", "take"):
            t.append(x.a[0])
        elif x.op in ("concat", "zip"):
            t.extend(x.a)
        elif is_arr(x) or x.op in ("repeatw", "repeat", "range", "range0"):
            pass
        else:
            return None
    return "only rotated or cut, not shuffled" if parts and not c.under(t_lt(c.n, I(2), True)) is TRUE else None


def iff_(c, a, b):
    return map_leaves(c, lambda l: a if l is TRUE else b if l is FALSE else iff(l, a, b))


def padding(r, s, oid, pad, kind):
    """padding has value zero and is the protocol's dummy"""
    e = elem(pad) if pad.op != "repeatw" else pad.a[0]
    v = fld(e, "note", "value", "0") if kind == "spends" else fld(e, "value", "0")
    r.eq("pad.value." + oid, B, v, I(0), "padding has value zero")
    if kind == "spends":
        d = fld(e, "dummy_sk")
        r.ob("pad.key." + oid, B, is_agg(d, None, "Some"), "a padding spend keeps its spending key", show(d, 4), val=d)
        sk = fld(some_of(d), "0")
        r.eq("pad.fvk." + oid, B, fld(e, "fvk"), s.fvk_of_sk(sk), "and its viewing key is that key's")
        r.eq("pad.scope." + oid, B, fld(e, "scope"), s.scope("External"), "with the scope of its address")
        fvk = fld(e, "fvk")
        a = fld(e, "note", "recipient")
    else:
        r.eq("pad.ovk." + oid, B, fld(e, "ovk"), NONE, "a padding output cannot be recovered by anyone's outgoing key")
        from .c03 import pad_memo
        r.eq("pad.memo." + oid, B, fld(e, "memo"), pad_memo(), "and has the empty memo")


def meta(r, c, n, f, X, P, items):
    m = c.under(fld(c.meta, f))
    rule = "the metadata maps each requested item to the action that contains it"
    i = mk("at", idx(X), P)
    want = None
    if m.op == "fold" and m.a[0] in (c.b, P):
        b, acc = m.a[0], mk("accv", m.a[0])
        want = mk("fold", b, mk("repeat", I(0), length(items)), iff(t_lt(i, length(items)), mk("upd", acc, ("i",), i, idx(b)), acc))
        r.eq("meta.%s%s" % (f, n), B, m, c.under(want), rule)
    elif m.op == "case" and all(contains(l, lambda x: x.op == "fold" and x.a[0] in (c.b, P)) for _, l in guards_of(m)):
        fs = {x for x in subterms(m) if x.op == "fold" and x.a[0] in (c.b, P)}
        b = next(iter(fs)).a[0]
        acc = mk("accv", b)
        want = mk("fold", b, mk("repeat", I(0), length(items)), iff(t_lt(i, length(items)), mk("upd", acc, ("i",), i, idx(b)), acc))
        r.eq("meta.%s%s" % (f, n), B, m, c.under(want), rule)
    elif not contains(m, lambda x: x is P or x is P.a[1]):
        # nothing it could be known from: it can only be right when there is nothing to record
        nothing = c.under(length(items))
        r.ob("meta.%s%s" % (f, n), B, nothing is I(0), rule, "does not depend on the shuffled order: " + show(m, 4)[:200], val=m)
    else:
        r.undecided("meta.%s%s" % (f, n), B, rule, show(m, 4)[:200])


def none(r, s):
    rng, anchor, spends, outputs, flags = syms(r, s)
    z = [(t_eq(length(spends), I(0)), "1"), (t_eq(length(outputs), I(0)), "1")]
    for n, bt in (("ordinary", s.t.new("BundleType", variant="Transactional", flags=flags, bundle_required=FALSE)), ("coinbase", s.t.new("BundleType", variant="Coinbase"))):
        x = r.sum(B, values=[rng, anchor, bt, spends, outputs]).ret
        for a, l in z:
            x = assume(x, a, l)
        lv = [l for _, l in guards_of(x)]
        r.ob("none[%s]" % n, B, any(is_agg(l, None, "Ok") and l.a[3] is NONE for l in lv) and all(not is_agg(l, None, "Ok") or l.a[3] is NONE for l in lv),
             "no bundle is made when nothing was requested and none is required", "; ".join(show(l, 3)[:100] for l in lv), val=x)


def nz(x):
    return b_not(t_eq(x, I(0)))
