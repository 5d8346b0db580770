"""C16: secrets are fresh draws from the caller's random source."""
import json
import re
from .build import *

CONCRETE = re.compile(r"\b(OsRng|ThreadRng|StdRng|SmallRng|ChaCha\d+Rng|ChaCha\d+Core|XorShiftRng|ReseedingRng|BlockRng|thread_rng|from_entropy|seed_from_u64|from_seed|from_rng|getrandom|SystemTime|RandomState|mock::StepRng)\b")


def rands(t):
    return [x for x in subterms(t) if x.op == "rand"]


def drawn(t):
    """(the draw, exact) for a value that is a draw"""
    if t.op == "rand":
        return t, True
    if t.op == "mut" and "fill_bytes" in t.a[0] and t.a[-1].op == "rand":
        return t.a[-1], True
    if t.op == "call" and t.a[0].startswith("FromUniformBytes::from_uniform_bytes") and len(t.a) == 2:
        return drawn(t.a[1])
    rs = rands(t)
    return (rs[0] if len(rs) == 1 else None), False


def check(r):
    s = Spec(r)
    for c in shape(r):
        if not pieces(r, c, "pieces"):
            continue
        one(r, s, c)
    sources(r, s)
    concrete(r)


def one(r, s, c):
    n = "[%s]" % c.name
    ev = {}
    for e in c.sum.events:
        if e.val is not None and e.val.op == "rand":
            ev.setdefault(e.val, []).append(e)
    seen = {}
    N = c.under(c.n)

    def per(e, pad):
        """is this draw repeated for each action (or each padding item)? None: it is repeated, the analysis cannot say for what"""
        some_ = False
        for x in e.ctx:
            if x[0] == "each" and x[1] == "repeat_with":
                if pad is not None:
                    return True
            elif x[0] == "each" and isinstance(x[1], T):
                y = c.under(x[1])
                if pad is None and (x[1] is c.b or y is c.b or c.under(length(y)) is N):
                    return True
                if pad is not None and pad.op == "map" and (x[1] is pad.a[0] or y is pad.a[0] or c.under(length(y)) is c.under(length(pad))):
                    return True
            elif x[0] == "loop" and x[1][0] in owners if isinstance(x[1], tuple) else x[0] == "loop" and x[1] in owners:
                return True
            if x[0] == "each" and isinstance(x[1], T) and not (x[1].op == "repeat" and x[1].a[1] is not UNIT and x[1].a[1].op == "int"):
                some_ = True
        return None if some_ else False

    def each_(oid, es, pad, rule, detail=""):
        got = [per(e, pad) for e in es]
        if es and all(g for g in got):
            r.ob(oid, B, True, rule)
        elif es and False not in got:
            r.undecided(oid, B, rule, "repeated, but not evidently for each: " + detail)
        else:
            r.ob(oid, B, False, rule, detail)
    owners = set(b.id for b in r.P.bodies.values() if str(b.j.get("span", "")).startswith("src/builder"))

    def fresh(oid, what, t, pad=None):
        d, exact = drawn(t)
        if d is None:
            if not rands(t):
                return r.ob(oid + n, B, False, what + " is drawn at random", "it is " + show(t, 4)[:200], val=t)
            for _, l in guards_of(t):
                k, same = drawn(l)
                if k in seen and same:
                    return r.ob(oid + ".own" + n, B, False, what + " is a draw of its own", "it can be the same draw as %s: %s" % (seen[k], show(k, 3)), val=t)
            gs = guards_of(t)
            if any(drawn(l)[1] for _, l in gs):
                for g, l in gs:
                    y = l
                    while y.op == "fld":
                        y = y.a[0]
                    kept = y.op == "index" and y.a[0].op == "acc"
                    if not kept and rands(l) or any(x.op == "unk" for x in subterms(l)):
                        continue
                    if kept or not imprecise(l) and not any(x.op == "acc" for x in subterms(l)):
                        return r.ob(oid + n, B, False, what + " is drawn at random", "it is %s when %s" % (show(l, 4)[:150], show(g, 4)[:200]))
            return r.undecided(oid + n, B, what + " is drawn at random", show(t, 4)[:200])
        if not exact:
            for g, l in guards_of(t):
                if t.op == "case" and l is not BOT and not rands(l) and not imprecise(l) and not any(x.op in ("acc", "unk") for x in subterms(l)):
                    return r.ob(oid + n, B, False, what + " is drawn at random", "it is %s when %s" % (show(l, 4)[:150], show(g, 4)[:200]))
            return r.undecided(oid + n, B, what + " is drawn at random", "computed from a draw: " + show(t, 4)[:200])
        okr = d.a[2] is c.rng
        r.ob(oid + ".rng" + n, B, okr, what + " comes from the caller's random source", show(d.a[2], 4), val=d.a[2])
        es = ev.get(d, [])
        each_(oid + ".each" + n, es, pad, what + (" is drawn anew for each padding item" if pad is not None else " is drawn anew for each action"),
             "drawn at %s, context %s" % ([e.span for e in es], [[(x[0], show(x[1], 2)[:60] if isinstance(x[1], T) else x[1:]) for x in e.ctx] for e in es]))
        r.ob(oid + ".own" + n, B, d not in seen, what + " is a draw of its own", "the same draw as " + seen.get(d, ""))
        seen[d] = what

    fresh("rcv", "the commitment trapdoor", fld(known(c, "rcv"), "0"))
    fresh("alpha", "the signature randomizer", known(c, "alpha"))
    rs = seeds_of(known(c, "rcm_new"))
    if not rs:
        r.undecided("rseed" + n, B, "the note seed is drawn at random", show(known(c, "rcm_new"), 4)[:200])
    other = [x for x in rs if not rands(x) and not imprecise(x) and not any(q.op == "acc" for q in subterms(x))]
    for x in other[:1]:
        r.ob("rseed" + n, B, False, "the new note's seed is drawn at random", "it can be " + show(x, 4)[:200])
    for x in rs:
        if not other:
            fresh("rseed", "the new note's seed", x)
    # without an outgoing viewing key, the outgoing ciphertext is made with a random key and a random text
    for (P, X), kind in ((c.As, "spend"), (c.Bs, "output")):
        parts = X.a[0].a if X.op == "take" and X.a[0].op == "concat" else X.a if X.op == "concat" else (X,)
        if len(parts) != 2:
            continue
        pad = parts[1]
        e = elem(pad) if pad.op != "repeatw" else pad.a[0]
        if kind == "spend":
            fresh("pad.sk", "a padding spend's key", fld(some_of(fld(e, "dummy_sk")), "0"), pad)
            rho = fld(e, "note", "rho", "0")
            ds = set(rands(rho))
            if len(ds) == 1:
                fresh("pad.rho", "a padding note's nullifier part", list(ds)[0], pad)
            else:
                r.ob("pad.rho" + n, B, bool(ds), "a padding note's nullifier part is drawn at random", show(rho, 4)[:200], val=rho)
            fresh("pad.rseed", "a padding note's seed", fld(e, "note", "rseed", "0"), pad)
            fresh("pad.pos", "a padding path's position", fld(e, "merkle_path", "position"), pad)
            ap = fld(e, "merkle_path", "auth_path")
            if ap.op == "map":
                d = fld(ap.a[1], "0")
                fresh("pad.path", "a padding path's node", d, pad)
                es = ev.get(d, [])
                r.ob("pad.path.each" + n, B, all(any(x[0] == "loop" or (x[0] == "each" and x[1] is ap.a[0]) for x in z.ctx) for z in es),
                     "a padding path's nodes are drawn one by one", "")
            else:
                r.ob("pad.path" + n, B, bool(rands(ap)), "a padding path is drawn at random", show(ap, 4)[:200], val=ap)
        else:
            sk = [x for x in rands(fld(e, "recipient"))]
            ds = set(sk)
            if len(ds) == 1:
                fresh("pad.addr", "a padding output's recipient", list(ds)[0], pad)
                fvk = s.fvk_of_sk(mk("mut", "RngCore::fill_bytes@impl RngCore", 0, list(ds)[0]))
            else:
                r.ob("pad.addr" + n, B, bool(ds), "a padding output's recipient is random", show(fld(e, "recipient"), 4)[:200], val=fld(e, "recipient"))
    # the outgoing ciphertext
    oc = fld(c.act, "encrypted_note", "out_ciphertext")
    nokey = assume(oc, fld(c.O, "ovk"), "None")
    ds = set(x for x in rands(nokey) if x not in seen)
    r.ob("out.random" + n, B, len(ds) >= 2, "without an outgoing key, the outgoing ciphertext is made of a random key and text", "%d draws" % len(ds), val=nokey)
    for d in ds:
        r.ob("out.rng" + n, B, d.a[2] is c.rng, "it comes from the caller's random source", show(d, 3), val=d.a[2])
        each_("out.each" + n, ev.get(d, []), None, "and is drawn for each action")


def seeds_of(rcm):
    """the note seeds a commitment trapdoor is expanded from (not those its nullifier part depends on)"""
    out, seen, st = [], set(), [rcm]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "absorb" and len(x.a) >= 3:
            if x.a[1] not in out:
                out.append(x.a[1])
            st.append(x.a[0])
        else:
            st.extend(children(x))
    return out


def seed_of(rcm):
    rs = seeds_of(rcm)
    return rs[0] if rs else None


def root(p):
    return p.split("::{closure")[0]


def rooted(t):
    while t.op in ("fld", "as", "mut", "at", "index"):
        t = t.a[0] if isinstance(t.a[0], T) else (t.a[-1] if isinstance(t.a[-1], T) else mk("none"))
    return t.op == "sym"


def sources(r, s):
    """Whatever is drawn anywhere is drawn from a source the caller passed."""
    for f in sorted(r.P.by_path):
        if "::testing" in f or not r.has(f) or f.startswith("<") and "fmt" in f:
            continue
        it = r.P.find(f)[0]
        if it.get("kind") not in ("Fn", "AssocFn"):
            continue
        b = r.P.bodies[it["item"]]
        if not re.search(r"Rng|\bR\b", " ".join(str(b.locals[1 + i]["t"]) for i in range(b.argc))):
            continue
        try:
            S_ = r.sum(f)
        except Exception as e:
            r.undecided("source", f, "randomness comes from the caller", str(e)[:200])
            continue
        bad, k = [], 0
        for e in S_.events:
            if e.val is not None and e.val.op == "rand":
                k += 1
                if not rooted(e.val.a[2]):
                    bad.append("%s at %s from %s" % (e.name, e.span, show(e.val.a[2], 3)[:100]))
        r.ob("source", f, not bad, "every one of its %d draws is from the source it was given" % k, "; ".join(bad[:3]))


def concrete(r):
    bad = {}
    n = 0
    for b in r.P.bodies.values():
        if not local(b) or "::testing" in b.path:
            continue
        if CONCRETE.search(json.dumps(b.j.get("args"))):
            continue        # an instance: the source is its caller's choice, and the caller is looked at too
        n += 1
        m = CONCRETE.findall(json.dumps(b.j))
        if m:
            bad.setdefault(root(b.path), set()).update(m)
    r.ob("sources", "crate", not bad, "no function has a random source of its own (%d bodies)" % n, "; ".join("%s uses %s" % (k, sorted(v)) for k, v in sorted(bad.items())[:4]))


def local(b):
    return b.j.get("crate") == "orchard"
