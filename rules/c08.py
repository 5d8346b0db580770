"""C08: bundle digests commit to every effecting and authorizing field exactly once (ZIP 244)."""
from .prim import *


def each(lst, f):
    return mk("foreach", lst, *f(elem(lst)))


def effects(s, b):
    acts = fld(b, "actions")
    enc = lambda a: fld(a, "encrypted_note")
    ch = s.blake(32, b"ZTxIdOrcActCHash", each(acts, lambda a: [s.repr_p(fld(a, "nf", "0")), s.repr_p(fld(a, "cmx", "0")),
                                                               fld(enc(a), "epk_bytes"), slc(fld(enc(a), "enc_ciphertext"), I(0), I(52))]))
    mh = s.blake(32, b"ZTxIdOrcActMHash", each(acts, lambda a: [slc(fld(enc(a), "enc_ciphertext"), I(52), I(564))]))
    nh = s.blake(32, b"ZTxIdOrcActNHash", each(acts, lambda a: [s.pt_bytes(fld(a, "cv_net", "0")), s.vk_bytes(fld(a, "rk", "0")),
                                                               slc(fld(enc(a), "enc_ciphertext"), I(564), I(580)), fld(enc(a), "out_ciphertext")]))
    return s.blake(32, b"ZTxIdOrchardHash", ch, mh, nh, arr(flags_byte(fld(b, "flags"))),
                   call("i64::to_le_bytes", call("Into::into@V<-i64", fld(b, "value_balance"))), s.repr_p(fld(b, "anchor", "0")))


def flags_byte(f):
    """bit 0: spends enabled; bit 1: outputs enabled; the rest zero"""
    o = lambda k: case(fld(f, "outputs_enabled"), [("0", I(k)), ("1", I(k + 2))])
    return case(fld(f, "spends_enabled"), [("0", o(0)), ("1", o(1))])


def sig_bytes(sig, T=AUTH):
    return call("From::from@[u8; 64]<-reddsa::Signature<%s>" % T, fld(sig, "0"))


def authdata(s, b):
    au = fld(b, "authorization")
    return s.blake(32, b"ZTxAuthOrchaHash", fld(au, "proof", "0"), each(fld(b, "actions"), lambda a: [sig_bytes(fld(a, "authorization"))]),
                   sig_bytes(fld(au, "binding_signature"), BIND))


def check(r):
    s = Spec(r)
    B, C = "bundle::Bundle", "bundle::commitments"
    r.fn("effects", B + "::commitment", lambda b: s.S("BundleCommitment", effects(s, b)),
         "effects digest: every field of every action in order, then flags, balance and anchor, each once, in its standard sub-digest")
    r.fn("authorizing", B + "::authorizing_commitment", lambda b: s.S("BundleAuthorizingCommitment", authdata(s, b)),
         "authorizing digest: proof, then each action's signature in order, then the balance signature")
    r.fn("effects.fn", C + "::hash_bundle_txid_data", lambda b: effects(s, b), "effects digest", private=True)
    r.fn("authorizing.fn", C + "::hash_bundle_auth_data", lambda b: authdata(s, b), "authorizing digest", private=True)
    r.fn("effects.empty", C + "::hash_bundle_txid_empty", s.blake(32, b"ZTxIdOrchardHash"), "the digest of an absent bundle is the personalized empty hash")
    r.fn("authorizing.empty", C + "::hash_bundle_auth_empty", s.blake(32, b"ZTxAuthOrchaHash"), "the authorizing digest of an absent bundle is the personalized empty hash")
    r.fn("flags", "bundle::Flags::to_byte", flags_byte, "flags byte: spends in bit 0, outputs in bit 1, nothing else")
    p = "bundle::<impl std::convert::From<bundle::BundleCommitment> for [u8; 32]>::from"
    r.fn("bytes", p, lambda c: fld(c, "0"), "the digest's bytes are the digest")
