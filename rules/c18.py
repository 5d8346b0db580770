"""C18: note commitment, nullifier, seed-derived secrets, note validity, note equality."""
from .prim import *


def check(R):
    s = Spec(R)
    SEED = "note::RandomSeed"
    R.fn("psi", SEED + "::psi", lambda self, rho: s.psi(fld(self, "0"), fld(rho, "0")),
         "psi = ToBase(PRF(rseed, [9] || rho))", private=True)
    R.fn("rcm", SEED + "::rcm", lambda self, rho: s.S("NoteCommitTrapdoor", s.rcm(fld(self, "0"), fld(rho, "0"))),
         "rcm = ToScalar(PRF(rseed, [5] || rho))", private=True)
    R.fn("esk", SEED + "::esk", lambda self, rho: s.S("NonZeroPallasScalar", s.esk(fld(self, "0"), fld(rho, "0"))),
         "esk = ToScalar(PRF(rseed, [4] || rho)), non-zero", private=True)
    R.fn("esk-option", SEED + "::esk_inner", lambda self, rho: s.nz_q(s.esk(fld(self, "0"), fld(rho, "0"))),
         "esk is absent exactly when it is zero", private=True)
    R.fn("seed-valid", SEED + "::from_bytes",
         lambda b, rho: iff(t_eq(ZERO, s.esk(b, fld(rho, "0"))), NONE, some(s.S("RandomSeed", b))),
         "a seed is accepted for a rho only if its ephemeral secret is non-zero")
    R.fn("seed-bytes", SEED + "::as_bytes", lambda self: fld(self, "0"), "the seed's bytes")
    N = "note::Note"
    R.fn("commitment", N + "::commitment", lambda self: s.S("NoteCommitment", some_of(s.cm_of(self))),
         "commitment = NoteCommit_rcm(repr(g_d), repr(pk_d), v, rho, psi)")
    R.fn("commitment-option", N + "::commitment_inner", lambda self: opt(s.cm_of(self), lambda p: some(s.S("NoteCommitment", p))),
         "an undefined commitment is absent", private=True)
    R.fn("derive", "note::commitment::NoteCommitment::derive",
         lambda g, p, v, rho, psi, rcm: opt(s.note_commit(g, p, fld(v, "0"), rho, psi, fld(rcm, "0")), lambda x: some(s.S("NoteCommitment", x))),
         "NoteCommit message is g_d || pk_d || I2LEBSP_64(v) || rho_255 || psi_255", private=True)
    R.fn("nullifier", N + "::nullifier", lambda self, fvk: s.S("Nullifier", s.nf_of(self, fvk)),
         "nullifier = Extract([(PRF_nk(rho) + psi) mod p] K + cm) for the note's own rho, psi and cm")
    R.fn("nf-derive", "note::nullifier::Nullifier::derive",
         lambda nk, rho, psi, cm: s.S("Nullifier", s.nullifier(fld(nk, "0"), rho, psi, fld(cm, "0"))),
         "nullifier formula", private=True)
    R.fn("from-parts", N + "::from_parts",
         lambda r, v, rho, rs: (lambda n: opt_else(s.cm_of(n), NONE, lambda _: some(n)))(s.S("Note", recipient=r, value=v, rho=rho, rseed=rs)),
         "a note is constructed from parts only if it has a commitment, with exactly those parts")
    a = R.sum(N + "::new")
    # every way of making a note with fresh randomness yields the given parts and a valid note
    parts = dict(zip([x for x in ("recipient", "value", "rho")], a.args[:3]))
    n = a.ret
    R.ob("new-parts", N + "::new", all(fld(n, k) is v for k, v in parts.items()),
         "a new note has exactly the requested recipient, value and nullifier-derived part", dag(n)[:400], val=n)
    R.fn("extract", "<note::commitment::ExtractedNoteCommitment as std::convert::From<note::commitment::NoteCommitment>>::from",
         lambda cm: s.S("ExtractedNoteCommitment", s.x_of(fld(cm, "0"))), "cmx = Extract(cm)")
    R.fn("note-esk", N + "::esk", lambda self: s.S("EphemeralSecretKey", s.S("NonZeroPallasScalar", s.esk(fld(self, "rseed", "0"), fld(self, "rho", "0")))),
         "the note's ephemeral secret is derived from its seed and rho", private=True)
    # equality
    def eqspec(x, y):
        cx = lambda n: s.x_of(some_of(s.cm_of(n)))
        return t_eq(cx(x), cx(y))
    p = "<note::Note as std::cmp::PartialEq>::eq"
    R.fn("note-eq", p, eqspec, "notes are equal exactly when their extracted commitments are equal")
    R.fn("nf-accessor-rho", "note::Rho::from_nf_old", lambda nf: s.S("Rho", fld(nf, "0")), "rho is the nullifier of the spent note")
    for f in ("recipient", "value", "rho", "rseed"):
        R.fn("get-" + f, "note::Note::" + f, lambda self, f=f: fld(self, f), "accessor returns the component it names")
    R.fn("eq-nf", "<note::commitment::ExtractedNoteCommitment as std::cmp::PartialEq>::eq", lambda a, b: t_eq(fld(a, "0"), fld(b, "0")),
         "commitments are compared in full")
