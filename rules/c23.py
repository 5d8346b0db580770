"""C23: keys, parameters and constants used by prover and verifier agree."""
from .prim import *
from .c04 import Inst, rands
from . import pallas

FP_ = "halo2_gadgets::ecc::chip::FixedPoint<pasta_curves::EpAffine>>::"
FB = "constants::fixed_bases::"
SM = "constants::sinsemilla::"
# base -> (owner, hash domain, message, windows) in the protocol specification
BASES = {
    "CommitIvkR": ("OrchardFixedBasesFull", b"z.cash:Orchard-CommitIvk-r", b"", 85),
    "NoteCommitR": ("OrchardFixedBasesFull", b"z.cash:Orchard-NoteCommit-r", b"", 85),
    "ValueCommitR": ("OrchardFixedBasesFull", b"z.cash:Orchard-cv", b"r", 85),
    "SpendAuthG": ("OrchardFixedBasesFull", b"z.cash:Orchard", b"G", 85),
    "NullifierK": ("NullifierK", b"z.cash:Orchard", b"K", 85),
    "ValueCommitV": ("ValueCommitV", b"z.cash:Orchard-cv", b"v", 22),
}
DOMAINS = {"NoteCommit": b"z.cash:Orchard-NoteCommit-M", "CommitIvk": b"z.cash:Orchard-CommitIvk-M", "MerkleCrh": b"z.cash:Orchard-MerkleCRH"}


def ints(t):
    """a literal (nested) array as Python integers, or None"""
    if t.op == "int":
        return t.a[0]
    if t.op == "bytes":
        w, h = t.a[1], bytes.fromhex(t.a[0])
        return [int.from_bytes(h[i:i + w], "little") for i in range(0, len(h), w)]
    if t.op == "agg" and t.a[0] == "array":
        out = [ints(x) for x in t.a[3:]]
        return None if any(x is None for x in out) else out
    return None


def elem_of(t):
    """the field element a decoded constant denotes"""
    # from_repr(bytes):Some.0
    if t.op == "fld" and t.a[0].op == "as" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].startswith("PrimeField::from_repr@"):
        b = ints(t.a[0].a[0].a[1])
        if b is not None and len(b) == 32:
            return int.from_bytes(bytes(b), "little")
    return None


def point_of(t):
    if t.op == "fld" and t.a[0].op == "as" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].startswith("CurveAffine::from_xy@"):
        x, y = (elem_of(z) for z in t.a[0].a[0].a[1:3])
        if x is not None and y is not None and x < pallas.P and y < pallas.P:
            return x, y
    return None


def variant(r, f, v):
    x = r.sum(f)
    return assume(x.ret, x.args[0], v)


def check(r):
    s = Spec(r)
    for name, (owner, dom, msg, n) in BASES.items():
        f = "<%s%s as %s" % (FB, owner, FP_)
        if not r.has(f + "generator"):
            raise Missing(f + "generator")
        g = point_of(variant(r, f + "generator", name))
        want = pallas.group_hash(dom, msg)
        if g is None:
            r.undecided("generator." + name, f + "generator", "the generator is a literal point", show(variant(r, f + "generator", name), 4)[:200])
        else:
            r.ob("generator." + name, f + "generator", g == want, "the generator of %s inside the circuit is the group hash used outside it" % name, "it is (%x, %x)" % g)
        tables(r, f, name, want, n)
    f = "<%sOrchardHashDomains as halo2_gadgets::sinsemilla::HashDomains<pasta_curves::EpAffine>>::Q" % SM
    for name, msg in DOMAINS.items():
        if not r.has(f):
            raise Missing(f)
        q = point_of(variant(r, f, name))
        if q is None:
            r.undecided("domain." + name, f, "the domain's point is a literal", "")
        else:
            r.ob("domain." + name, f, q == pallas.group_hash(b"z.cash:SinsemillaQ", msg), "the in-circuit Sinsemilla domain %s starts at the point of the domain string used outside" % name, "it is (%x, %x)" % q)
    cd = "<%sOrchardCommitDomains as halo2_gadgets::sinsemilla::CommitDomains<pasta_curves::EpAffine, %sOrchardFixedBases, %sOrchardHashDomains>>::" % (SM, FB, SM)
    for m, ty, mp in (("r", "OrchardFixedBasesFull", {"NoteCommit": "NoteCommitR", "CommitIvk": "CommitIvkR"}), ("hash_domain", "OrchardHashDomains", {"NoteCommit": "NoteCommit", "CommitIvk": "CommitIvk"})):
        r.fn("commit." + m, cd + m, lambda me: case(me, [(k, s.t.new(SM + ty if "Hash" in ty else FB + ty, variant=v)) for k, v in mp.items()]), "a commitment domain uses its own base and its own hash domain")
    for src, v in (("OrchardFixedBasesFull", "Full"), ("ValueCommitV", "ValueCommitV"), ("NullifierK", "NullifierK")):
        f = "<%sOrchardFixedBases as std::convert::From<%s%s>>::from" % (FB, FB, src)
        r.fn("base." + src, f, lambda x: s.t.new(FB + "OrchardFixedBases", *([x] if v == "Full" else []), variant=v), "a base keeps its identity when it is made one of all bases")
    keys(r, s)
    strings(r, s)


def tables(r, f, name, g, n):
    if not (r.has(f + "z") and r.has(f + "u")):
        raise Missing(f + "z")
    z, u = ints(variant(r, f + "z", name)), ints(variant(r, f + "u", name))
    w = f + "z"
    if z is None or u is None:
        return r.undecided("tables." + name, w, "the tables are literal", "")
    if not r.ob("tables.size." + name, w, len(z) == n and len(u) == n and all(len(x) == 8 for x in u), "one table row per window, for every window", "%d, %d rows" % (len(z), len(u))):
        return
    bad = []
    for i, (row, zz, us) in enumerate(zip(pallas.window_table(g, n), z, u)):
        for k, ((_, y), uu) in enumerate(zip(row, us)):
            uv = int.from_bytes(bytes(uu), "little")
            if uv >= pallas.P or (uv * uv - zz - y) % pallas.P or pallas.is_square(zz - y):
                bad.append((i, k))
    r.ob("tables." + name, w, not bad, "every window and sign table entry of %s belongs to a multiple of its generator (%d entries)" % (name, 8 * n), "entries (window, digit): %s" % bad[:6])


def keys(r, s):
    vkf, pkf = "circuit::VerifyingKey::build", "circuit::ProvingKey::build"
    pr = "halo2_proofs::poly::commitment::Params::new"
    P_ = "halo2_proofs::plonk::"
    v, p = r.sum(vkf).ret, r.sum(pkf).ret
    params = fld(v, "params")
    r.ob("params", vkf, params.op == "call" and params.a[0] == pr and params.a[1:] == (I(11),), "parameters are those of the circuit's size", show(params, 4)[:200])
    r.eq("params.pk", pkf, fld(p, "params"), params, "proving and verification use parameters of the same size")
    for oid, f, t, want in (("vk", vkf, fld(v, "vk"), "keygen_vk"), ("pk", pkf, fld(p, "pk"), "keygen_pk")):
        g = [x for x in subterms(t) if x.op == "call" and x.a[0] == P_ + want]
        if len(g) != 1 or ok_of(g[0]) is not t:
            r.undecided(oid, f, "the key is the generated one", show(t, 4)[:200])
            continue
        r.eq(oid + ".params", f, g[0].a[1], params, "the key is generated for the parameters it is stored with")
        if want == "keygen_pk":
            r.eq("pk.vk", f, g[0].a[2], fld(v, "vk"), "the proving key is for the circuit of the verifying key")
        circuit = g[0].a[-1]
        r.ob(oid + ".circuit", f, circuit.op == "agg" and circuit.a[0] == s.t.path("Circuit"), "the key is generated for the Action circuit", show(circuit, 3)[:200])


def strings(r, s):
    """bases outside the circuit"""
    k = Inst(r)
    f = "circuit::Proof::verify"
    x = r.sum(f)
    r.eq("verify.params", f, x.ret, k.verify(x.args[1], x.args[0], x.args[2]), "a proof is verified with the parameters, key and transcript it is created with")
    f = "circuit::Proof::create"
    x = r.sum(f)
    d = rands(x.ret, "halo2_proofs::plonk::create_proof")
    pk = x.args[0]
    if len(d) == 1 and len(d[0].a) == 8:
        r.eq("create.params", f, d[0].a[3], fld(pk, "params"), "a proof is created with the parameters of its key")
        r.eq("create.key", f, d[0].a[4], fld(pk, "pk"), "a proof is created with the key given")
        r.eq("create.transcript", f, d[0].a[7], call("halo2_proofs::transcript::Blake2bWrite::init", arr()), "a proof is a fresh transcript of the kind the verifier reads")
    else:
        r.undecided("create.params", f, "a proof is created with its key's parameters", "")
    r.fn("outside.cv", "value::ValueCommitment::derive", lambda v, rcv: s.S("ValueCommitment", s.value_commit(fld(v, "0"), fld(rcv, "0"))), "value commitments use, outside the circuit, the bases used inside it", private=True)
    n = "note::Note::commitment"
    r.fn("outside.cm", n, lambda me: s.S("NoteCommitment", some_of(s.cm_of(me))), "note commitments use, outside the circuit, the domain used inside it", private=True)
    f = "keys::FullViewingKey::rivk"
    f = "note::Note::nullifier"
    r.fn("outside.nf", f, lambda me, fvk: s.S("Nullifier", s.nf_of(me, fvk)), "nullifiers use, outside the circuit, the base used inside it", private=True)
