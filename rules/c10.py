"""C10: every public decoder accepts canonical, non-degenerate encodings only (the primitive decoder it uses, the checks around it, and what it returns, exactly)."""
from .prim import *


def check(R):
    s = Spec(R)
    simple = [
        ("cmx", "note::commitment::ExtractedNoteCommitment::from_bytes", "p", "ExtractedNoteCommitment"),
        ("nullifier", "note::nullifier::Nullifier::from_bytes", "p", "Nullifier"),
        ("rho", "note::Rho::from_bytes", "p", "Rho"),
        ("anchor", "tree::Anchor::from_bytes", "p", "Anchor"),
        ("node", "tree::MerkleHashOrchard::from_bytes", "p", "MerkleHashOrchard"),
        ("trapdoor", "value::ValueCommitTrapdoor::from_bytes", "q", "ValueCommitTrapdoor"),
        ("cv", "value::ValueCommitment::from_bytes", "e", "ValueCommitment"),
    ]
    prim = {"p": s.from_p, "q": s.from_q, "e": s.from_pt}
    names = {"p": "a canonical base field element", "q": "a canonical scalar", "e": "a point encoding"}
    for oid, path, k, ty in simple:
        R.fn(oid, path, lambda b: opt(prim[k](b), lambda x: some(s.S(ty, x))), "accepts exactly " + names[k])
    R.fn("epk", "keys::EphemeralPublicKey::from_bytes", lambda b: opt(s.nonid(b), lambda x: some(s.S("EphemeralPublicKey", x))),
         "an ephemeral key is a point other than the identity", private=True)
    R.fn("esk", "keys::EphemeralSecretKey::from_bytes",
         lambda b: opt_else(s.from_q(b), NONE, lambda x: opt(s.nz_q(x), lambda y: some(s.S("EphemeralSecretKey", y)))),
         "an ephemeral secret is a canonical non-zero scalar", private=True)
    R.fn("pk_d", "keys::DiversifiedTransmissionKey::from_bytes", lambda b: opt(s.nonid(b), lambda x: some(s.S("DiversifiedTransmissionKey", x))),
         "a transmission key is a point other than the identity", private=True)
    R.fn("address", "address::Address::from_raw_address_bytes",
         lambda b: opt(s.nonid(slc(b, I(11), I(43))), lambda x: some(s.S("Address", d=s.S("Diversifier", slc(b, I(0), I(11))),
                                                                         pk_d=s.S("DiversifiedTransmissionKey", x)))),
         "an address has a transmission key that is a point other than the identity")
    R.fn("ivk", "keys::IncomingViewingKey::from_bytes", lambda b: ivk_parse(s, b), "an incoming viewing key has a canonical non-zero base field element")
    R.fn("ak", "keys::SpendValidatingKey::from_bytes", lambda b: iff(t_eq(I(32), length(b)), s.ak_parse(b, some, NONE), NONE),
         "a validating key has a cleared sign bit, is not the identity and is a point", private=True)
    R.fn("nk", "keys::NullifierDerivingKey::from_bytes",
         lambda b: iff(t_eq(I(32), length(b)), opt(s.from_p(b), lambda x: some(s.S("NullifierDerivingKey", x))), NONE),
         "a nullifier key is a canonical base field element", private=True)
    R.fn("rivk", "keys::CommitIvkRandomness::from_bytes",
         lambda b: iff(t_eq(I(32), length(b)), opt(s.from_q(b), lambda x: some(s.S("CommitIvkRandomness", x))), NONE),
         "commitment randomness is a canonical scalar", private=True)
    R.fn("fvk", "keys::FullViewingKey::from_bytes", lambda b: s.fvk_parse(b, some, NONE), "full viewing key: every component canonical and valid")
    for oid, ty in (("signing-key", "SigningKey"), ("verification-key", "VerificationKey")):
        p = "<primitives::redpallas::%s<T> as std::convert::TryFrom<[u8; 32]>>::try_from" % ty
        k = lambda b: call("TryFrom::try_from@reddsa::%s<T><-[u8; 32]" % ty, b)
        R.fn(oid, p, lambda b: case(k(b), [("Err", err(fld(as_(k(b), "Err"), "0"))), ("Ok", ok(s.S(ty, ok_of(k(b)))))]),
             "RedPallas keys are accepted only by the signature library's own decoder")
    R.fn("nz-scalar", "spec::NonZeroPallasScalar::from_bytes", lambda b: opt_else(s.from_q(b), NONE, s.nz_q), "canonical and non-zero", private=True)
    R.fn("nz-base", "spec::NonZeroPallasBase::from_bytes",
         lambda b: opt_else(s.from_p(b), NONE, lambda x: iff(t_eq(ZERO, x), NONE, some(s.S("NonZeroPallasBase", x)))), "canonical and non-zero", private=True)
    R.fn("nonid-point", "spec::NonIdentityPallasPoint::from_bytes", s.nonid, "a point other than the identity", private=True)
    R.fn("div-hash", "spec::diversify_hash", lambda d: s.S("NonIdentityPallasPoint", s.g_d(d)),
         "the diversified base replaces the identity by the hash of the empty string", private=True)
    R.fn("seed", "note::RandomSeed::from_bytes",
         lambda b, rho: iff(t_eq(ZERO, s.esk(b, fld(rho, "0"))), NONE, some(s.S("RandomSeed", b))), "a seed gives a non-zero ephemeral secret")
    R.fn("flags", "bundle::Flags::from_byte", lambda v: flags_parse(s, v), "reserved flag bits are rejected")
    R.fn("sk", "keys::SpendingKey::from_bytes", lambda b: s.sk_valid(b, some(s.S("SpendingKey", b)), NONE), "a spending key yields valid keys in both scopes")


def flags_parse(s, v):
    from oflow.interp import bitset
    out = some(s.S("Flags", spends_enabled=bitset(v, I(0)), outputs_enabled=bitset(v, I(1))))
    for i in range(7, 1, -1):
        out = iff(bitset(v, I(i)), NONE, out)
    return out


def ivk_parse(s, b):
    x = s.from_p(slc(b, I(32), I(64)))
    return opt_else(x, NONE, lambda v: iff(t_eq(ZERO, v), NONE, some(s.S(
        "IncomingViewingKey", dk=s.S("DiversifierKey", slc(b, I(0), I(32))),
        ivk=s.S("KeyAgreementPrivateKey", s.S("NonZeroPallasScalar", s.base_to_scalar(v)))))))
