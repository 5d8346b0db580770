"""C12: encoders and decoders mirror each other: each decoder applied to its encoder's output gives back the encoded components, and the layouts are the specified ones."""
from .prim import *
from .c10 import flags_parse
from .c11 import leaves
from oflow import concrete

AX = [  # decoder, encoder, wrapper
    ("PrimeField::from_repr@" + FP, "PrimeField::to_repr@" + FP, "some"),
    ("PrimeField::from_repr@" + FQ, "PrimeField::to_repr@" + FQ, "some"),
    ("GroupEncoding::from_bytes@" + EP, "GroupEncoding::to_bytes@" + EP, "some"),
    ("TryFrom::try_from@reddsa::VerificationKey<%s><-[u8; 32]" % AUTH, "From::from@[u8; 32]<-reddsa::VerificationKey<%s>" % AUTH, "ok"),
    ("u64::from_le_bytes", "u64::to_le_bytes", "id"),
]


def reduce(t):
    """applies decoder(encoder(x)) = x of the primitive encodings until nothing changes"""
    for _ in range(30):
        m = {}
        for x in subterms(t):
            if x.op == "call" and len(x.a) == 2 and isinstance(x.a[0], str):
                for d, e, w in AX:
                    if x.a[0] == d and x.a[1].op == "call" and x.a[1].a[0] == e:
                        v = x.a[1].a[1]
                        m[x] = some(v) if w == "some" else ok(v) if w == "ok" else v
        if not m:
            return t
        t = subst(t, m)
    return t


def mirror(R, s, oid, enc, dec, ty, comps, wrap="Some", extra=()):
    """dec(enc(x)): every accepting leaf has each named component equal to x's"""
    if not (R.has(enc) and R.has(dec)):
        if not R.has(dec):
            raise Missing(dec)
        raise Missing(enc)
    se = R.sum(enc)
    x = se.args[0]
    e = se.ret
    if e.op == "agg" and e.a[0].endswith("EphemeralKeyBytes"):
        e = fld(e, "0")
    d = R.sum(dec, values=[e] + list(extra)).ret
    d = reduce(d)
    good, acc = True, 0
    det = ""
    for l in leaves(d):
        if l is BOT or (l.op == "agg" and l.a[1] in ("None", "Err")):
            continue
        acc += 1
        v = l.a[3] if wrap else l
        if wrap and not (l.op == "agg" and l.a[1] == wrap):
            good = False
            det = "not in normal form: " + dag(l)[:300]
            break
        for c in comps:
            if Eq(R.P.adts).eq(fld(v, *c), fld(x, *c)) is not None:
                if concrete.same(R.P.adts, fld(v, *c), fld(x, *c), norm=reduce) == "always":
                    continue
                good = False
                det = "component %s decodes to %s" % (".".join(c), dag(fld(v, *c))[:300])
    R.ob(oid, dec, good and acc > 0, "%s accepts what %s writes and gives back the same components" % (short(dec), short(enc)), det or "no accepting case: " + dag(d)[:300], val=d)


def check(R):
    s = Spec(R)
    L = lambda *b: concat(*b)
    K = "keys::"
    # layouts
    R.fn("fvk-bytes", K + "FullViewingKey::to_bytes", lambda f: segs_(96, (0, s.ak_bytes(f)), (32, s.repr_p(fld(f, "nk", "0"))), (64, s.repr_q(fld(f, "rivk", "0")))),
         "full viewing key = ak || nk || rivk, 96 bytes")
    p = K + "FullViewingKey::write"
    if R.has(p):
        sm = R.sum(p)
        want = segs_(96, (0, s.ak_bytes(sm.args[0])), (32, s.repr_p(fld(sm.args[0], "nk", "0"))), (64, s.repr_q(fld(sm.args[0], "rivk", "0"))))
        rule = "writes ak || nk || rivk, whole, and nothing else"
        ws = [e for e in sm.events if e.kind == "call" and e.name.startswith("Write::write")]
        bare = [e for e in ws if e.name.startswith(("Write::write@", "Write::write_vectored@"))]
        if bare:
            R.ob("fvk-write", p, False, rule, "one call of Write::write may write fewer bytes: " + str(bare[0].span))
        elif any(e.ctx for e in ws):
            R.undecided("fvk-write", p, rule, "written in a loop")
        else:
            R.ob("fvk-write", p, len(ws) > 0 and Eq(R.P.adts).eq(concat(*[e.val.a[2] for e in ws]), want) is None, rule, dag(sm.ret)[:500], val=sm.ret)
    p = K + "FullViewingKey::read"
    if R.has(p):
        sm = R.sum(p)
        part = [x for x in subterms(sm.ret) if x.op == "mut" and x.a[0].startswith("Read::read@") and x.a[-1].op == "repeat"]
        if not part and any(x.op == "call" and x.a[0].startswith("Read::read@") for x in subterms(sm.ret)):
            R.undecided("fvk-read", p, "what was written is read back whole, however the reader hands it out", "read in a loop")
        else:
            R.ob("fvk-read", p, not part, "what was written is read back whole, however the reader hands it out", "one call of Read::read may return fewer bytes: " + "; ".join(show(x, 3) for x in part[:2]))
    R.fn("ivk-bytes", K + "IncomingViewingKey::to_bytes", lambda i: segs_(64, (0, fld(i, "dk", "0")), (32, s.repr_q(fld(i, "ivk", "0", "0")))),
         "incoming viewing key = dk || ivk, 64 bytes")
    R.fn("addr-bytes", "address::Address::to_raw_address_bytes", lambda a: segs_(43, (0, fld(a, "d", "0")), (11, s.pt_bytes(fld(a, "pk_d", "0", "0")))),
         "address = d || repr(pk_d), 43 bytes")
    # mirrors
    mirror(R, s, "fvk", K + "FullViewingKey::to_bytes", K + "FullViewingKey::from_bytes", "FullViewingKey", [("ak",), ("nk",), ("rivk",)])
    mirror(R, s, "addr", "address::Address::to_raw_address_bytes", "address::Address::from_raw_address_bytes", "Address", [("d",), ("pk_d",)])
    # the incoming viewing key's scalar is written as a scalar and read as a base field element: both are the same 32 bytes
    R.fn("ivk-parse", K + "IncomingViewingKey::from_bytes", lambda b: ivk_layout(s, b), "dk is bytes 0..32, ivk is bytes 32..64")
    for oid, e, d, ty, w in [
            ("nf", "note::nullifier::Nullifier::to_bytes", "note::nullifier::Nullifier::from_bytes", "Nullifier", "Some"),
            ("cmx", "note::commitment::ExtractedNoteCommitment::to_bytes", "note::commitment::ExtractedNoteCommitment::from_bytes", "", "Some"),
            ("rho", "note::Rho::to_bytes", "note::Rho::from_bytes", "Rho", "Some"),
            ("anchor", "tree::Anchor::to_bytes", "tree::Anchor::from_bytes", "Anchor", "Some"),
            ("node", "tree::MerkleHashOrchard::to_bytes", "tree::MerkleHashOrchard::from_bytes", "", "Some"),
            ("cv", "value::ValueCommitment::to_bytes", "value::ValueCommitment::from_bytes", "", "Some"),
            ("sk", K + "SpendingKey::to_bytes", K + "SpendingKey::from_bytes", "", "Some"),
            ("dk", K + "DiversifierKey::to_bytes", K + "DiversifierKey::from_bytes", "", None),
            ("div", K + "Diversifier::as_array", K + "Diversifier::from_bytes", "", None),
            ("ovk", "<keys::OutgoingViewingKey as std::convert::AsRef<[u8; 32]>>::as_ref", "<keys::OutgoingViewingKey as std::convert::From<[u8; 32]>>::from", "", None)]:
        mirror(R, s, oid, e, d, ty, [("0",)], wrap=w)
    for oid, e, d, w in [
            ("esk?", K + "EphemeralSecretKey::to_bytes", K + "EphemeralSecretKey::from_bytes", "Some"),
            ("epk", K + "EphemeralPublicKey::to_bytes", K + "EphemeralPublicKey::from_bytes", "Some"),
            ("pk_d", K + "DiversifiedTransmissionKey::to_bytes", K + "DiversifiedTransmissionKey::from_bytes", "Some"),
            ("ak", K + "SpendValidatingKey::to_bytes", K + "SpendValidatingKey::from_bytes", "Some"),
            ("nk", K + "NullifierDerivingKey::to_bytes", K + "NullifierDerivingKey::from_bytes", "Some"),
            ("rivk", K + "CommitIvkRandomness::to_bytes", K + "CommitIvkRandomness::from_bytes", "Some"),
            ("value", "value::NoteValue::to_bytes", "value::NoteValue::from_bytes", None)]:
        if R.has(e) and R.has(d):
            mirror(R, s, oid, e, d, "", [("0",)], wrap=w)
    rho = R.arg("note::RandomSeed::from_bytes", 1)
    mirror(R, s, "seed", "note::RandomSeed::as_bytes", "note::RandomSeed::from_bytes", "", [("0",)], extra=[rho])
    # canonical encodings
    for oid, path, f in [
            ("nf-enc", "note::nullifier::Nullifier::to_bytes", lambda x: s.repr_p(fld(x, "0"))),
            ("cmx-enc", "note::commitment::ExtractedNoteCommitment::to_bytes", lambda x: s.repr_p(fld(x, "0"))),
            ("rho-enc", "note::Rho::to_bytes", lambda x: s.repr_p(fld(x, "0"))),
            ("anchor-enc", "tree::Anchor::to_bytes", lambda x: s.repr_p(fld(x, "0"))),
            ("node-enc", "tree::MerkleHashOrchard::to_bytes", lambda x: s.repr_p(fld(x, "0"))),
            ("cv-enc", "value::ValueCommitment::to_bytes", lambda x: s.pt_bytes(fld(x, "0")))]:
        R.fn(oid, path, f, "the canonical encoding of the whole component")
    # flags
    fl = "bundle::Flags::to_byte"
    R.fn("flags-enc", fl, lambda f: iff(fld(f, "spends_enabled"), iff(fld(f, "outputs_enabled"), I(3), I(1)), iff(fld(f, "outputs_enabled"), I(2), I(0))),
         "bit 0 is spends-enabled, bit 1 is outputs-enabled, every other bit is clear")
    R.fn("flags-dec", "bundle::Flags::from_byte", lambda v: flags_parse(s, v), "each flag is read from its own bit and reserved bits are rejected")
    sm = R.sum(fl)
    x = sm.args[0]
    d = R.sum("bundle::Flags::from_byte", values=[sm.ret]).ret
    R.eq("flags", "bundle::Flags::from_byte", d, some(s.S("Flags", spends_enabled=fld(x, "spends_enabled"), outputs_enabled=fld(x, "outputs_enabled"))),
         "decoding an encoded flags byte gives the same flags")
    R.fn("flags-se", "bundle::Flags::spends_enabled", lambda f: fld(f, "spends_enabled"), "accessor")
    R.fn("flags-oe", "bundle::Flags::outputs_enabled", lambda f: fld(f, "outputs_enabled"), "accessor")
    for c, (a, b) in {"ENABLED": (1, 1), "SPENDS_DISABLED": (0, 1), "OUTPUTS_DISABLED": (1, 0)}.items():
        path = "bundle::Flags::" + c
        if R.has(path):
            R.fn("flags-" + c, path, lambda: s.S("Flags", spends_enabled=I(a), outputs_enabled=I(b)), "named flag sets are what their names say")
    # serde of tree hashes
    p = "<tree::MerkleHashOrchard as serde::Serialize>::serialize"
    if R.has(p):
        R.fn("node-ser", p, lambda x, w: call("Serialize::serialize@[u8; 32]", s.repr_p(fld(x, "0")), w), "serialized as the canonical bytes")
    p = "<tree::MerkleHashOrchard as serde::Deserialize<'de>>::deserialize"
    if R.has(p):
        sm = R.sum(p)
        r = call("Deserialize::deserialize@[u8; 32]", sm.args[0])
        from .c11 import erase_err
        b = s.from_p(ok_of(r))
        exp = case(r, [("Err", err(fld(as_(r, "Err"), "0"))), ("Ok", opt_else(b, err(I(0)), lambda v: ok(s.S("MerkleHashOrchard", v))))])
        R.eq("node-de", p, erase_err2(sm.ret, r), erase_err2(exp, r), "a non-canonical serialized hash is an error")
    # secrets and signatures
    RP = "primitives::redpallas::"
    R.fn("sig", "<primitives::redpallas::Signature<T> as std::convert::From<[u8; 64]>>::from",
         lambda b: s.S(RP + "Signature", call("From::from@reddsa::Signature<T><-[u8; 64]", b)), "signature bytes are handed to the signature library", private=True)
    R.fn("sig-bytes", RP + "<impl std::convert::From<&primitives::redpallas::Signature<T>> for [u8; 64]>::from",
         lambda x: call("From::from@[u8; 64]<-reddsa::Signature<T>", fld(x, "0")), "a signature's bytes are the signature library's", private=True)


def erase_err2(t, r):
    from .c11 import under

    def f(x):
        if x.op == "agg" and x.a[1] == "Err" and not any(y is as_(r, "Err") for y in subterms(x)):
            return err(I(0))
        return x
    return map_leaves(t, f)


def ivk_layout(s, b):
    from .c10 import ivk_parse
    return ivk_parse(s, b)


def segs_(n, *parts):
    return concat(*[v for _, v in parts])
