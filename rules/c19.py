"""C19: the public fields of a built action and its witness describe the same spend and the same new note."""
from .build import *
from .c16 import seed_of

RAND = "reddsa::VerificationKey::randomize"


def witness(s, S_, note, alpha, rcv):
    """what the circuit is to be given, per field"""
    fvk = fld(S_, "fvk")
    old = fld(S_, "note")

    def side(n):
        a = fld(n, "recipient")
        rho, rseed = fld(n, "rho", "0"), fld(n, "rseed", "0")
        return (s.S("NonIdentityPallasPoint", s.g_d(fld(a, "d", "0"))), fld(a, "pk_d"), fld(n, "value"), s.psi(rseed, rho), s.S("NoteCommitTrapdoor", s.rcm(rseed, rho)))
    o, w = side(old), side(note)
    return {
        "path": fld(S_, "merkle_path", "auth_path"), "pos": fld(S_, "merkle_path", "position"),
        "g_d_old": o[0], "pk_d_old": o[1], "v_old": o[2], "rho_old": fld(old, "rho"), "psi_old": o[3], "rcm_old": o[4],
        "cm_old": s.S("NoteCommitment", some_of(s.cm_of(old))),
        "alpha": alpha, "ak": fld(fvk, "ak"), "nk": fld(fvk, "nk"),
        "rivk": s.S("CommitIvkRandomness", s.rivk(fvk, fld(S_, "scope"))),
        "g_d_new": w[0], "pk_d_new": w[1], "v_new": w[2], "psi_new": w[3], "rcm_new": w[4], "rcv": rcv,
    }


def check(r):
    s = Spec(r)
    cs = shape(r)
    for c in cs:
        if pieces(r, c, "pieces"):
            one(r, s, c)
    f = "circuit::Circuit::from_action_context"
    if not r.has(f):
        raise Missing(f)
    x = r.sum(f)
    sp, note, alpha, rcv = x.args
    known_ = lambda v: call("halo2_proofs::circuit::Value::known", v)
    w = witness(s, sp, note, alpha, rcv)
    cir = s.S("Circuit", **{k: known_(v) for k, v in w.items()})
    r.eq("context", f, x.ret, iff(t_eq(s.nf_of(fld(sp, "note"), fld(sp, "fvk")), fld(note, "rho", "0")), some(cir), NONE),
         "a witness is made only for a new note bound to the spent one, with every part in its place")
    r.fn("action", "action::Action::from_parts",
         lambda nf, rk, cmx, enc, cv, auth: s.S("Action", nf=nf, rk=rk, cmx=cmx, encrypted_note=enc, cv_net=cv, authorization=auth), "an action has exactly the parts given")
    r.fn("rho", "action::Action::rho", lambda a: s.S("Rho", fld(a, "nf", "0")), "the new note's rho is the nullifier")
    for n, k in (("nullifier", "nf"), ("rk", "rk"), ("cmx", "cmx"), ("encrypted_note", "encrypted_note"), ("cv_net", "cv_net"), ("authorization", "authorization")):
        r.fn("get." + n, "action::Action::" + n, lambda a: fld(a, k), "an accessor returns its own part")


def one(r, s, c):
    n = "[%s]" % c.name
    S_, O_ = c.S, c.O
    fvk = fld(S_, "fvk")
    nf = s.nf_of(fld(S_, "note"), fvk)
    r.eq("nf" + n, B, fld(c.act, "nf", "0"), nf, "the nullifier revealed is the spent note's, under the key given with it")
    rs = seed_of(known(c, "rcm_new"))
    if rs is None:
        return r.undecided("seed" + n, B, "the new note's seed", show(known(c, "rcm_new"), 4)[:200])
    note = s.S("Note", recipient=fld(O_, "recipient"), value=fld(O_, "value"), rho=s.S("Rho", fld(c.act, "nf", "0")), rseed=s.S("RandomSeed", rs))
    cmx = s.x_of(some_of(s.cm_of(note)))
    r.eq("cmx" + n, B, fld(c.act, "cmx", "0"), cmx, "the commitment revealed is that of a note with the requested recipient and value, and the revealed nullifier as its rho")
    alpha = known(c, "alpha")
    ak = fld(fvk, "ak")
    r.eq("rk" + n, B, fld(c.act, "rk", "0"), call(RAND, fld(ak, "0", "0"), alpha), "the randomized key is the spend's validating key with the witness's randomizer")
    au = fld(c.act, "authorization")
    r.eq("parts.ak" + n, B, fld(au, "parts", "ak"), ak, "the key kept for signing is the spend's validating key")
    r.eq("parts.alpha" + n, B, fld(au, "parts", "alpha"), alpha, "the randomizer kept for signing is the witness's")
    sk = fld(S_, "dummy_sk")
    r.eq("dummy" + n, B, fld(au, "dummy_ask"), opt(sk, lambda k: some(s.S("SpendAuthorizingKey", s.S("SigningKey", s.sk_to_ask(fld(k, "0")))))),
         "padding spends keep their own authorizing key, others none")
    for k, v in witness(s, S_, note, alpha, known(c, "rcv")).items():
        r.eq("w.%s%s" % (k, n), B, known(c, k), v, "the witness's %s is the action's own" % k)
    enc = fld(c.act, "encrypted_note")
    epk = s.pt_bytes(s.epk_of(note))
    r.eq("epk" + n, B, fld(enc, "epk_bytes"), epk, "the ephemeral key is the new note's")
    key = s.kdf(s.mul(fld(O_, "recipient", "pk_d", "0", "0"), s.esk_pt(note)), epk)
    r.eq("enc" + n, B, fld(enc, "enc_ciphertext"), s.aead(key, s.plaintext(note, fld(O_, "memo"))), "the ciphertext is of the new note and the requested memo, to its recipient")
    ovk = fld(O_, "ovk")
    oc = assume(fld(enc, "out_ciphertext"), ovk, "Some")
    ock = s.ock(fld(some_of(ovk), "0"), s.pt_bytes(fld(c.act, "cv_net", "0")), s.repr_p(fld(c.act, "cmx", "0")), epk)
    r.eq("out" + n, B, oc, s.aead(ock, s.out_plaintext(note)), "the outgoing ciphertext lets the outgoing key recover the note")
