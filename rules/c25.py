"""C25: the circuit's constraints include the action statement.

`configure` and `synthesize` are read by oflow.halo: the gates are polynomials, a gate enabled at a row is those polynomials over the
cells assigned there, copies and equalities identify cells. The statement's conditions are then looked for among these constraints,
starting from the public inputs; the bit decompositions of the hashed messages are proved to be the canonical encodings.
"""
from .prim import *
from oflow.halo import Halo
from oflow.arith import t_sub, neg as t_neg
from oflow.ranges import t_abs, lt_const
from .plonk import *

C = "<circuit::Circuit as halo2_proofs::plonk::Circuit<pasta_curves::Fp>>::"
KNOWN = {"SinsemillaChip::load", "MerklePath::calculate_root", "FixedPointShort::mul", "FixedPoint::mul", "FixedPointBaseField::mul", "Point::add",
         "NonIdentityPoint::add", "Hash::init", "Hash::hash", "ScalarFixedShort::new", "ScalarVar::from_base", "NonIdentityPoint::mul",
         "CommitDomain::commit", "CommitDomain::short_commit", "witness_short", "witness_check", "from_subpieces"}
ANCHOR, CVX, CVY, NF, RKX, RKY, CMX, ENSPEND, ENOUT = range(9)


class No(Exception):
    pass


def call(t, n, k=None):
    """the arguments of a call of n"""
    if t.op == "call" and t.a[0] == n and (k is None or len(t.a) == k + 1):
        return t.a[1:]
    raise No("%s where %s is needed" % (show(t, 3), n))


def named(t, v):
    """a domain, base or hash named v"""
    if t.op == "agg" and t.a[1] == v or t.op == "call" and len(t.a) == 2 and isinstance(t.a[1], T) and t.a[1].op == "agg" and t.a[1].a[1] == v:
        return True
    raise No("%s where %s is needed" % (show(t, 3), v))


def zero_(t):
    """component 0 of what a gadget gives back"""
    if t.op == "fld" and t.a[1] == "0":
        return t.a[0]
    raise No(show(t, 3))


def fixed(t, gadget, base):
    """the scalar of a fixed-base multiplication"""
    b, k = call(t, gadget, 2)
    named(b, base)
    return k


def free(t, kind):
    if t.op == "call" and t.a[0] == kind and t.a[1].op == "int":
        return t
    raise No("%s is not a %s the prover chooses" % (show(t, 3), kind))


def derived(t):
    """the result of a variable-base multiplication of a point that is not the identity"""
    return t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "NonIdentityPoint::mul"


class St:
    pass


def check(R):
    try:
        H = Halo(R.P)
        conf = H.summary(C + "configure").ret
        H.summary(C + "synthesize", values=[None, conf, None])
        F = Facts(H.log)
    except (Limit, KeyError, IndexError, AttributeError, TypeError) as e:
        return R.undecided("circuit", C + "synthesize", "the circuit is read", "%s %s" % (type(e).__name__, e))
    odd = sorted({g.a[0] for g in F.gadgets if g.op == "call"} - KNOWN)
    why = "; ".join(F.unknown[:3] + ["gadget " + x for x in odd[:3]] + ["conditional constraint"] * bool(F.guarded))
    R.facts = {"polynomials": len(F.polys), "cells with a proved range": len(F.bits), "gadget calls": len(F.gadgets)}
    S = St()
    at = C + "synthesize"

    def want(oid, rule, fn):
        try:
            d = fn()
            ok, d = (True, "") if d is None or d is True else (False, d or "not among the constraints")
        except No as e:
            ok, d = False, str(e)
        except (AttributeError, KeyError, IndexError) as e:
            # reported where that part is looked for
            return R.undecided(oid, at, rule, "depends on a part that was not found (%s)" % e)
        if not ok and why:
            R.undecided(oid, at, rule, why + ": " + d)
        else:
            R.ob(oid, at, ok, rule, d)

    def slot(n):
        r = F.public.get(n, [])
        if len(r) != 1:
            raise No("%d cells are constrained to public input %d" % (len(r), n))
        return r[0][1]

    def point(a, b):
        """the point whose coordinates are in slots a and b"""
        (x,), (y,) = call(slot(a), "x", 1), call(slot(b), "y", 1)
        if not F.same(x, y):
            raise No("the two coordinates are of different points")
        return x

    def value():
        v, r = call(point(CVX, CVY), "Point::add", 2)
        k = fixed(zero_(v), "FixedPointShort::mul", "ValueCommitV")
        S.rcv = free(fixed(zero_(r), "FixedPoint::mul", "ValueCommitR"), "ScalarFixed::new")
        (ms,) = call(k, "ScalarFixedShort::new", 1)
        S.mag, S.sign = F.rep(ms.a[3]), F.rep(ms.a[4])
    want("cv", "public inputs 1 and 2 are the coordinates of [v_net] V + [rcv] R for a short signed v_net = magnitude and sign", value)

    def nf():
        (p,) = call(slot(NF), "x", 1)
        cm, k = call(p, "Point::add", 2)
        S.nf, S.cm = slot(NF), F.rep(cm)
        s = F.rep(fixed(zero_if(k), "FixedPointBaseField::mul", "NullifierK"))
        for q in F.polys:
            if (s,) in q and len(q) == 3 and all(len(m) == 1 for m in q):
                k = (-pow(q[(s,)], P - 2, P)) % P
                o = [m[0] for m in q if m[0] is not s]
                if all(q[(m,)] * k % P == 1 for m in o):
                    h = [m for m in o if m.op == "call" and m.a[0] == "Hash::hash"]
                    if len(h) == 1:
                        S.psi = o[1] if o[0] is h[0] else o[0]
                        arr_ = h[0].a[2]
                        S.nk, S.rho = F.rep(arr_.a[3]), F.rep(arr_.a[4])
                        if len(arr_.a) != 5:
                            raise No("the hash takes other inputs")
                        return
        raise No("the scalar of NullifierK is not constrained to be a hash plus psi")
    want("nf", "public input 3 is Extract(cm_old + [Poseidon(nk, rho_old) + psi_old] K)", nf)

    def rk():
        a, b = call(point(RKX, RKY), "Point::add", 2)
        S.alpha = free(fixed(zero_(a), "FixedPoint::mul", "SpendAuthG"), "ScalarFixed::new")
        S.ak = F.rep(free(b, "NonIdentityPoint::new"))
    want("rk", "public inputs 4 and 5 are the coordinates of [alpha] G + ak with ak not the identity", rk)

    def note(c):
        """the parts of the note whose commitment is c"""
        dom, msg, r = call(c, "CommitDomain::commit", 3)
        named(dom, "NoteCommit")
        n = St()
        n.rcm = free(r, "ScalarFixed::new")
        n.bits = bits(pieces(c))
        return n

    def bits(ps):
        out, at_ = [], 0
        for p in ps or ():
            w = pwidth(p)
            if w is None:
                raise No("a message piece of unknown width")
            for c, o, k in F.split(F.rep(p), w):
                out.append((c, at_ + o, k))
            at_ += w
        return out

    def part(bs, lo, n):
        """the components of bits lo..lo+n"""
        r = [(c, o - lo, w) for c, o, w in bs if o < lo + n and o + w > lo]
        if not r or r[0][1] != 0 or r[-1][1] + r[-1][2] != n or any(c is None for c, _, _ in r):
            raise No("bits %d to %d of the message are not separate components" % (lo, lo + n))
        return r

    def spelled(comps):
        """the cell constrained to be the sum of the components"""
        if len(comps) == 1:
            return comps[0][0]
        w = {c: (1 << o) % P for c, o, _ in comps}
        for q in F.polys:
            if () in q or len(q) != len(w) + 1 or any(len(m) != 1 for m in q):
                continue
            for m, v in q.items():
                if m[0] in w:
                    continue
                k = (-pow(v, P - 2, P)) % P
                if {n[0]: x * k % P for n, x in q.items() if n is not m} == w:
                    return m[0]
        raise No("no cell is constrained to be the value of these bits")

    def field(bs, lo, n=255):
        cs = part(bs, lo, n)
        x = spelled(cs)
        if n >= 255 and not F.canonical([(c, o) for c, o, _ in cs]):
            raise No("the encoding of %s is not proved canonical" % show(x, 3))
        return x

    def parity(bs, lo, y):
        """bit lo is the lowest bit of the canonical encoding of the cell y"""
        (b, _, w), = part(bs, lo, 1)
        if F.bits.get(b) != 1:
            raise No("the sign bit is not boolean")
        y = F.rep(y)
        for l in F.linear_for(y):
            cs = sorted(((v, c) for c, v in l.items()), key=lambda z: z[0])
            if cs[0][0] != 1 or any(v & (v - 1) for v, _ in cs) or any(c not in F.bits for _, c in cs):
                continue
            comps = [(c, v.bit_length() - 1) for v, c in cs]
            if any(o + F.bits[c] > o2 for (c, o), (_, o2) in zip(comps, comps[1:])):
                continue
            j = comps[0][0]
            if not F.canonical(comps):
                continue
            if j is b:
                return
            for d in F.linear_for(j):
                e = sorted(((v, c) for c, v in d.items()), key=lambda z: z[0])
                if e[0] == (1, b) and all(v & (v - 1) == 0 and c in F.bits for v, c in e) \
                        and all(v * (1 << F.bits[c]) <= u for (v, c), (u, _) in zip(e, e[1:])) and e[-1][0] << F.bits[e[-1][1]] < P:
                    return
        raise No("the bit is not proved to be the parity of %s" % show(y, 3))

    def coords(bs, lo):
        """the point encoded in 256 bits"""
        (p,) = call(field(bs, lo), "x", 1)
        parity(bs, lo + 255, mk("call", "y", p))
        return F.rep(p)

    def fields(n):
        n.g_d = coords(n.bits, 0)
        n.pk_d = coords(n.bits, 256)
        n.v = F.rep(field(n.bits, 512, 64))
        n.rho = F.rep(field(n.bits, 576))
        n.psi = F.rep(field(n.bits, 831))
        rest = [b for b in n.bits if b[1] >= 1086]
        if any(c is not None for c, _, _ in rest):
            raise No("the message goes on after psi")
        for x in (n.g_d, n.pk_d):
            if not derived(x):
                free(x, "NonIdentityPoint::new")

    def cmx():
        (p,) = call(slot(CMX), "x", 1)
        S.new = note(zero_(p))
    want("cmx", "public input 6 is Extract of the commitment of the new note", cmx)

    def cmold():
        for a, b in F.equal + [(S.cm, S.cm)]:
            for x, y in ((a, b), (b, a)):
                if F.rep(y) is S.cm and x.op == "fld" and x.a[1] == "0" and x.a[0].op == "call" and x.a[0].a[0] == "CommitDomain::commit":
                    S.old = note(x.a[0])
                    return
        raise No("cm_old is not constrained to be a note commitment")
    want("cm-old", "the commitment spent is that of the old note", cmold)

    for nm in ("old", "new"):
        want("message-" + nm, "the message committed to is g*_d || pk*_d || v (64 bits) || rho || psi with canonical encodings", lambda: fields(getattr(S, nm)))

    def eq(a, b, what):
        if F.rep(a) is not F.rep(b):
            raise No("%s: %s and %s are different cells" % (what, show(a, 3), show(b, 3)))

    def links():
        eq(S.old.rho, S.rho, "rho of the old note and of its nullifier")
        eq(S.old.psi, S.psi, "psi of the old note and of its nullifier")
        eq(S.new.rho, S.nf, "rho of the new note and the nullifier revealed")
    want("rho-psi", "the nullifier uses the old note's rho and psi, and the new note's rho is the nullifier", links)

    def ivk():
        for a, b in F.equal + [(S.old.pk_d, S.old.pk_d)]:
            for x, y in ((a, b), (b, a)):
                if F.rep(y) is not F.rep(S.old.pk_d) and y is not S.old.pk_d:
                    continue
                if not (x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] == "NonIdentityPoint::mul"):
                    continue
                g, k = call(zero_(x), "NonIdentityPoint::mul", 2)
                eq(g, S.old.g_d, "the base of pk_d")
                (i,) = call(k, "ScalarVar::from_base", 1)
                dom, msg, r = call(zero_(i), "CommitDomain::short_commit", 3)
                named(dom, "CommitIvk")
                S.rivk = free(r, "ScalarFixed::new")
                bs = bits(pieces(zero_(i)))
                (p,) = call(field(bs, 0), "x", 1)
                eq(p, S.ak, "the key in ivk and the key in rk")
                eq(field(bs, 255), S.nk, "nk in ivk and in the nullifier")
                if bs[-1][1] + bs[-1][2] != 510:
                    raise No("the message of ivk goes on after nk")
                return
        raise No("pk_d of the old note is not constrained")
    want("pk-d", "pk_d_old = [Commit_ivk(ak, nk, rivk)] g_d_old with canonical encodings, for the ak of rk and the nk of the nullifier", ivk)

    def mono(*c):
        return tuple(sorted((F.rep(x) for x in c), key=lambda t: t.id))

    def pub(n):
        for t in set(F.put.values()):
            if t.op == "call" and t.a[0] == "public" and num(t.a[2]) == n:
                return t
        raise No("public input %d is not used" % n)

    def has(p):
        q = {}
        for m, c in p:
            q = padd(q, {m: c % P})
        if not F.vanishes(q):
            raise No("no enabled gate has this polynomial")

    want("v-net", "v_old - v_new = magnitude * sign, for the values in the two commitments",
         lambda: has([(mono(S.old.v), 1), (mono(S.new.v), -1), (mono(S.mag, S.sign), -1)]))
    want("enable-spends", "v_old = 0 or spends are enabled (public input 7)",
         lambda: has([(mono(S.old.v), 1), (mono(S.old.v, pub(ENSPEND)), -1)]))
    want("enable-outputs", "v_new = 0 or outputs are enabled (public input 8)",
         lambda: has([(mono(S.new.v), 1), (mono(S.new.v, pub(ENOUT)), -1)]))

    def root():
        for g in F.gadgets:
            if g.op == "call" and g.a[0] == "MerklePath::calculate_root":
                con, leaf = call(g, "MerklePath::calculate_root", 2)
                (p,) = call(leaf, "x", 1)
                eq(p, S.cm, "the leaf and the commitment spent")
                dom = call(con, "MerklePath::construct")[0]
                named(dom, "MerkleCrh")
                S.path = con
                a = pub(ANCHOR)
                return has([(mono(S.old.v, g), 1), (mono(S.old.v, a), -1)])
        raise No("no root is computed")
    want("root", "v_old = 0 or the root computed from Extract(cm_old) is the anchor (public input 0)", root)

    used = set(F.public) | {num(t.a[2]) for t in F.put.values() if t.op == "call" and t.a[0] == "public"}
    cols = {t.a[1] for t in F.put.values() if t.op == "call" and t.a[0] == "public"} | {c for v in F.public.values() for c, _ in v}

    def inputs():
        if used < set(range(9)):
            return "not used: %s" % sorted(set(range(9)) - used)
        return len(cols) == 1 or "the inputs are read from %d columns" % len(cols)
    want("inputs", "every public input is constrained", inputs)

    # what an honest prover puts there
    def wit(oid, get, fields_, pt=False):
        def f():
            t = get()
            if derived(t):
                return
            if t.op == "call" and t.a[1].op == "int":
                t = t.a[2]
            s = show(t, 12)
            for x in fields_:
                if x not in s:
                    raise No("its witness is %s" % s[:80])
        want("witness-" + oid, "the witness of %s is the circuit's own %s" % (oid, " and ".join(fields_)), f)
    for oid, get, fs in [
            ("cm_old", lambda: S.cm, ["self.cm_old"]), ("nk", lambda: S.nk, ["self.nk"]), ("rho_old", lambda: S.rho, ["self.rho_old"]),
            ("psi_old", lambda: S.psi, ["self.psi_old"]), ("alpha", lambda: S.alpha, ["self.alpha"]), ("ak", lambda: S.ak, ["self.ak"]),
            ("rcv", lambda: S.rcv, ["self.rcv"]), ("rivk", lambda: S.rivk, ["self.rivk"]), ("g_d_old", lambda: S.old.g_d, ["self.g_d_old"]),
            ("pk_d_old", lambda: S.old.pk_d, ["self.pk_d_old"]), ("rcm_old", lambda: S.old.rcm, ["self.rcm_old"]),
            ("v_old", lambda: S.old.v, ["self.v_old"]), ("g_d_new", lambda: S.new.g_d, ["self.g_d_new"]), ("pk_d_new", lambda: S.new.pk_d, ["self.pk_d_new"]),
            ("rcm_new", lambda: S.new.rcm, ["self.rcm_new"]), ("v_new", lambda: S.new.v, ["self.v_new"]), ("psi_new", lambda: S.new.psi, ["self.psi_new"]),
            ("path", lambda: S.path, ["self.pos", "self.path"])]:
        wit(oid, get, fs)
    try:
        a, b = (x.a[2] for x in (S.old.v, S.new.v))
        d = t_sub(*(fld(x.a[1], "0") if x.op == "call" else fld(x, "0") for x in (a, b)))
        m, sg = S.mag.a[2], S.sign.a[2]
    except (AttributeError, IndexError) as e:
        return R.undecided("witness-v_net", at, "magnitude and sign of v_old - v_new", "not found (%s)" % e)
    one = mk("call", "pasta_curves::Fp::one")
    R.eq("witness-magnitude", at, m, mk("call", "From::from@pasta_curves::Fp<-u64", t_abs(d)), "the magnitude witnessed is |v_old - v_new|")
    R.eq("witness-sign", at, sg, case(lt_const(d, 0), [("0", one), ("1", t_neg(one))]), "the sign witnessed is that of v_old - v_new")


def zero_if(t):
    return t.a[0] if t.op == "fld" and t.a[1] == "0" else t
