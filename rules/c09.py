"""C09: what note encryption writes is what note decryption reads."""
from .prim import *

D = "<note_encryption::OrchardDomain as zcash_note_encryption::Domain>::"
SO = "zcash_note_encryption::ShieldedOutput<note_encryption::OrchardDomain, "
ACT = "note_encryption::<impl " + SO + "ENC_CIPHERTEXT_SIZE> for action::Action<T>>::"
CMP = "<note_encryption::CompactAction as " + SO + "COMPACT_NOTE_SIZE>>::"


def check(r):
    s = Spec(r)
    f = lambda n, want, rule, pre=D, private=False, given=None: r.fn(n, pre + n, want, rule, private=private, given=given)
    nz = lambda e: fld(e, "0", "0")
    # layout
    f("note_plaintext_bytes", lambda note, memo: s.S("NotePlaintextBytes", s.plaintext(note, memo)), "plaintext: version 2, diversifier, value, seed, memo")
    f("outgoing_plaintext_bytes", lambda note, esk: s.S("OutPlaintextBytes", concat(s.pt_bytes(fld(note, "recipient", "pk_d", "0", "0")), s.repr_q(nz(esk)))),
      "outgoing plaintext: transmission key, ephemeral secret")
    f("parse_note_plaintext_without_memo_ivk", lambda me, ivk, pt: s.parse_ivk(pt, fld(me, "rho", "0"), nz(ivk)),
      "reading back: version 2 only; diversifier, value and seed from where they were written; rho of the action being decrypted; a valid seed and commitment",
      given=lambda me, ivk, pt: [(t_lt(length(pt), I(52), True), "0")])
    f("parse_note_plaintext_without_memo_ovk", lambda me, pk, pt: s.parse(fld(pt, "0"), fld(me, "rho", "0"), lambda d: nz(pk)), "the same when recovering, with the recovered transmission key")
    f("extract_memo", lambda me, pt: slc(fld(pt, "0"), I(52), I(564)), "the memo is read from where it was written")
    nonid = lambda b, w: map_leaves(s.nonid(b), lambda l: NONE if l is NONE else some(w(fld(l, "0"))))
    f("extract_pk_d", lambda op: nonid(slc(fld(op, "0"), I(0), I(32)), lambda p: s.S("DiversifiedTransmissionKey", p)), "the transmission key is read from where it was written; the identity is refused")

    def esk_of(b):
        q = s.from_q(b)
        return opt_else(q, NONE, lambda x: iff(t_eq(ZERO, x), NONE, some(s.S("EphemeralSecretKey", s.S("NonZeroPallasScalar", x)))))
    f("extract_esk", lambda op: esk_of(slc(fld(op, "0"), I(32), I(64))), "the ephemeral secret is read from where it was written; zero is refused")
    # components
    EPKt = lambda p: s.S("EphemeralPublicKey", s.S("NonIdentityPallasPoint", p))
    SS = lambda p: s.S("SharedSecret", s.S("NonIdentityPallasPoint", p))
    f("derive_esk", lambda note: some(s.S("EphemeralSecretKey", s.S("NonZeroPallasScalar", s.esk_pt(note)))), "the ephemeral secret is the note's own")
    f("get_pk_d", lambda note: fld(note, "recipient", "pk_d"), "the transmission key is the recipient's")
    f("ka_derive_public", lambda note, esk: EPKt(s.mul(s.g_d(fld(note, "recipient", "d", "0")), nz(esk))), "ephemeral key: the secret times the recipient's diversified base")
    f("ka_agree_enc", lambda esk, pk: SS(s.mul(nz(pk), nz(esk))), "the sender's shared secret: ephemeral secret times transmission key")
    f("ka_agree_dec", lambda ivk, epk: SS(s.mul(fld(epk, "0", "0"), nz(ivk))), "the recipient's shared secret: incoming key times ephemeral key")
    f("prepare_epk", lambda epk: s.S("PreparedEphemeralPublicKey", s.S("PreparedNonIdentityBase", nz(epk))), "preparing keeps the key")
    f("kdf", lambda sec, epk: s.kdf(nz(sec), fld(epk, "0")), "symmetric key: of the shared secret and the ephemeral key")
    f("derive_ock", lambda ovk, cv, cmx, epk: s.S("OutgoingCipherKey", s.ock(fld(ovk, "0"), s.pt_bytes(fld(cv, "0")), cmx, fld(epk, "0"))), "outgoing cipher key: outgoing key, value commitment, note commitment, ephemeral key, in that order")
    f("epk_bytes", lambda epk: s.S("EphemeralKeyBytes", s.pt_bytes(nz(epk))), "the ephemeral key's encoding")
    f("epk", lambda b: map_leaves(s.nonid(fld(b, "0")), lambda l: NONE if l is NONE else some(s.S("EphemeralPublicKey", fld(l, "0")))), "an ephemeral key is decoded, the identity refused")
    f("cmstar", lambda note: s.S("ExtractedNoteCommitment", s.x_of(some_of(s.cm_of(note)))), "the note's extracted commitment")
    # which rho
    r.fn("for_action", "note_encryption::OrchardDomain::for_action", lambda a: s.S("OrchardDomain", s.S("Rho", fld(a, "nf", "0"))), "the domain of an action has that action's nullifier as rho")
    r.fn("for_compact_action", "note_encryption::OrchardDomain::for_compact_action", lambda a: s.S("OrchardDomain", s.S("Rho", fld(a, "nullifier", "0"))), "the same for compact actions")
    # what decryption is given
    f("ephemeral_key", lambda a: s.S("EphemeralKeyBytes", fld(a, "encrypted_note", "epk_bytes")), "an action's own ephemeral key", pre=ACT)
    f("cmstar_bytes", lambda a: s.repr_p(fld(a, "cmx", "0")), "an action's own commitment", pre=ACT)
    f("enc_ciphertext", lambda a: fld(a, "encrypted_note", "enc_ciphertext"), "an action's own ciphertext", pre=ACT)
    for n, want in (("ephemeral_key", lambda a: s.S("EphemeralKeyBytes", fld(a, "ephemeral_key", "0"))), ("cmstar_bytes", lambda a: s.repr_p(fld(a, "cmx", "0"))),
                    ("enc_ciphertext", lambda a: fld(a, "enc_ciphertext"))):
        r.fn("compact." + n, CMP + n, want, "a compact action's own data")
    r.fn("compact.from", "<note_encryption::CompactAction as std::convert::From<&action::Action<T>>>::from",
         lambda a: s.S("CompactAction", nullifier=fld(a, "nf"), cmx=fld(a, "cmx"), ephemeral_key=s.S("EphemeralKeyBytes", fld(a, "encrypted_note", "epk_bytes")),
                       enc_ciphertext=slc(fld(a, "encrypted_note", "enc_ciphertext"), I(0), I(52))), "a compact action has the action's nullifier, commitment, ephemeral key and first 52 ciphertext bytes")
    K = ("nullifier", "cmx", "ephemeral_key", "enc_ciphertext")
    r.fn("compact.from_parts", "note_encryption::CompactAction::from_parts", lambda *a: s.S("CompactAction", **dict(zip(K, a))), "a compact action has exactly the parts given")
    for n in ("nullifier", "cmx"):
        r.fn("compact." + n, "note_encryption::CompactAction::" + n, lambda a: fld(a, n), "an accessor returns its own part")
    r.fn("compact.rho", "note_encryption::CompactAction::rho", lambda a: s.S("Rho", fld(a, "nullifier", "0")), "rho is the nullifier")
    # batches
    p = "<note_encryption::OrchardDomain as zcash_note_encryption::BatchDomain>::batch_kdf"

    def batch(items):
        e = elem(items)
        return smap(items, opt(fld(e, "0"), lambda sec: some(s.kdf(nz(sec), fld(e, "1", "0")))))
    r.fn("batch_kdf", p, batch, "each position's key is of its own shared secret and ephemeral key; positions without a secret have none")
    p = "<note_encryption::OrchardDomain as zcash_note_encryption::BatchDomain>::batch_epk"
    if r.has(p):
        r.fn("batch_epk", p, lambda items: smap(items, tup(map_leaves(s.nonid(fld(elem(items), "0")), lambda l: NONE if l is NONE else some(
            s.S("PreparedEphemeralPublicKey", s.S("PreparedNonIdentityBase", fld(l, "0", "0"))))), elem(items))), "each position's ephemeral key is its own")
    # the keys used
    r.fn("prepared.ivk", "keys::PreparedIncomingViewingKey::new", lambda k: s.S("PreparedIncomingViewingKey", s.S("PreparedNonZeroScalar", fld(k, "ivk", "0", "0"))), "preparing an incoming key keeps it")
    r.fn("ovk.bytes", "<keys::OutgoingViewingKey as std::convert::AsRef<[u8; 32]>>::as_ref", lambda k: fld(k, "0"), "an outgoing key's bytes are its own")
    r.fn("ovk.from", "<keys::OutgoingViewingKey as std::convert::From<[u8; 32]>>::from", lambda b: s.S("OutgoingViewingKey", b), "an outgoing key has the bytes given")
