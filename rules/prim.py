"""The protocol's definitions (Zcash protocol specification, ZIP 32, ZIP 212, ZIP 244), as terms.

Nothing here is taken from the analysed tree: each definition is written from the specification in
terms of the primitives of the libraries below the crate (field and group operations, BLAKE2b,
Poseidon, Sinsemilla, RedPallas, FF1).
"""
from .lib import *

FP, FQ, EP, EPA = "pasta_curves::Fp", "pasta_curves::Fq", "pasta_curves::Ep", "pasta_curves::EpAffine"
AUTH = "reddsa::orchard::SpendAuth"
BIND = "reddsa::orchard::Binding"


def const(b):
    return mk("bytes", b.hex(), 1)


def byte(n):
    return arr(I(n))


class Spec:
    def __init__(self, R):
        self.R = R
        self.t = Types(R.P)

    def S(self, name, *a, **k):
        return self.t.new(name, *a, **k)

    # ------------------------------------------------------------------ hashing
    def blake(self, n, person, *data):
        return call("blake2b::finalize", absorb(call("blake2b", I(n), UNIT, UNIT, const(person)), *data))

    def prf(self, k, *t):
        return self.blake(64, b"Zcash_ExpandSeed", k, *t)

    def to_base(self, x):
        return call("FromUniformBytes::from_uniform_bytes@" + FP, x)

    def to_scalar(self, x):
        return call("FromUniformBytes::from_uniform_bytes@" + FQ, x)

    # ------------------------------------------------------------------ fields and points
    def repr_p(self, x):
        return call("PrimeField::to_repr@" + FP, x)

    def repr_q(self, x):
        return call("PrimeField::to_repr@" + FQ, x)

    def from_p(self, b):
        return call("PrimeField::from_repr@" + FP, b)

    def from_q(self, b):
        return call("PrimeField::from_repr@" + FQ, b)

    def pt_bytes(self, p):
        return call("GroupEncoding::to_bytes@" + EP, p)

    def from_pt(self, b):
        return call("GroupEncoding::from_bytes@" + EP, b)

    def x_of(self, pt):
        """x-coordinate, and zero for the identity"""
        return iff(t_eq(ZERO, pt), ZERO, call("pasta_curves::arithmetic::Coordinates::x", call("coords", pt)))

    def y_of(self, pt):
        return iff(t_eq(ZERO, pt), ZERO, call("pasta_curves::arithmetic::Coordinates::y", call("coords", pt)))

    def base_to_scalar(self, x):
        """an element of the (smaller) base field as a scalar"""
        return some_of(self.from_q(self.repr_p(x)))

    def bits(self, x):
        return take(call("PrimeFieldBits::to_le_bits@" + FP, x), I(255))

    def bitarr(self, b):
        return call("bitvec::array::BitArray::new", b)

    def u64p(self, x):
        return call("From::from@%s<-u64" % FP, x)

    def u64q(self, x):
        return call("From::from@%s<-u64" % FQ, x)

    def group_hash(self, domain, msg):
        return call("apply", call("CurveExt::hash_to_curve@" + EP, S(domain)), msg)

    def mul(self, pt, k):
        from oflow.arith import t_mul
        return t_mul(pt, k)

    def nz_q(self, x):
        """scalar as a non-zero scalar option"""
        return iff(t_eq(ZERO, x), NONE, some(self.S("NonZeroPallasScalar", x)))

    def nonid(self, bytes_):
        q = self.from_pt(bytes_)
        return opt_else(q, NONE, lambda p: iff(t_eq(ZERO, p), NONE, some(self.S("NonIdentityPallasPoint", p))))

    # ------------------------------------------------------------------ commitments
    def com_dom(self, d):
        return call("halo2_gadgets::sinsemilla::primitives::CommitDomain::new", S(d))

    def commit_ivk(self, ak, nk, rivk):
        return call("halo2_gadgets::sinsemilla::primitives::CommitDomain::short_commit",
                    self.com_dom("z.cash:Orchard-CommitIvk"), concat(self.bits(ak), self.bits(nk)), rivk)

    def note_commit(self, g_d, pk_d, v, rho, psi, rcm):
        m = concat(self.bitarr(g_d), self.bitarr(pk_d), self.bitarr(call("u64::to_le_bytes", v)), self.bits(rho), self.bits(psi))
        return call("halo2_gadgets::sinsemilla::primitives::CommitDomain::commit",
                    self.com_dom("z.cash:Orchard-NoteCommit"), m, rcm)

    def value_commit(self, v, rcv):
        """v: signed integer term, rcv: scalar"""
        V = self.group_hash("z.cash:Orchard-cv", const(b"v"))
        Rr = self.group_hash("z.cash:Orchard-cv", const(b"r"))
        from oflow.arith import t_mul
        mag = self.R_abs(v)
        # [v] V + [rcv] R with the sign applied to the scalar
        s = case(t_lt(v, I(0)), [("0", self.u64q(v)), ("1", neg(self.u64q(neg(v))))])
        return add(t_mul(V, s), t_mul(Rr, rcv))

    def R_abs(self, v):
        return case(t_lt(v, I(0)), [("0", v), ("1", neg(v))])

    def poseidon2(self, a, b):
        return call("halo2_gadgets::poseidon::primitives::Hash::hash", call("halo2_gadgets::poseidon::primitives::Hash::init"), arr(a, b))

    # ------------------------------------------------------------------ notes
    def g_d(self, d):
        h = self.group_hash("z.cash:Orchard-gd", d)
        return iff(t_eq(ZERO, h), self.group_hash("z.cash:Orchard-gd", arr()), h)

    def psi(self, rseed, rho):
        return self.to_base(self.prf(rseed, byte(9), self.repr_p(rho)))

    def esk(self, rseed, rho):
        return self.to_scalar(self.prf(rseed, byte(4), self.repr_p(rho)))

    def rcm(self, rseed, rho):
        return self.to_scalar(self.prf(rseed, byte(5), self.repr_p(rho)))

    def note_cm(self, recipient, v, rho, rseed):
        """recipient: Address term; v: integer; rho: base; rseed: bytes -> option of point"""
        return self.note_commit(self.pt_bytes(self.g_d(fld(recipient, "d", "0"))), self.pt_bytes(fld(recipient, "pk_d", "0", "0")),
                                v, rho, self.psi(rseed, rho), self.rcm(rseed, rho))

    def cm_of(self, note):
        return self.note_cm(fld(note, "recipient"), fld(note, "value", "0"), fld(note, "rho", "0"), fld(note, "rseed", "0"))

    def nullifier(self, nk, rho, psi, cm):
        k = self.group_hash("z.cash:Orchard", const(b"K"))
        s = self.base_to_scalar(add(psi, self.poseidon2(nk, rho)))
        return self.x_of(add(self.mul(k, s), cm))

    def nf_of(self, note, fvk):
        rho, rseed = fld(note, "rho", "0"), fld(note, "rseed", "0")
        return self.nullifier(fld(fvk, "nk", "0"), rho, self.psi(rseed, rho), some_of(self.cm_of(note)))

    # ------------------------------------------------------------------ keys
    def sk_to_ask(self, sk):
        """authorizing key (reddsa signing key) with the sign of its validating key normalized"""
        a = self.to_scalar(self.prf(sk, byte(6)))
        k = lambda x: ok_of(call("TryFrom::try_from@reddsa::SigningKey<%s><-[u8; 32]" % AUTH, self.repr_q(x)))
        vk = self.vk_bytes(self.vk_of(k(a)))
        return case(self.top_bit(vk), [("0", k(a)), ("1", k(neg(a)))])

    def top_bit(self, b32):
        from oflow.interp import bitset
        return bitset(index(b32, I(31)), I(7))

    def vk_of(self, sk, T=AUTH):
        return call("From::from@reddsa::VerificationKey<%s><-reddsa::SigningKey<%s>" % (T, T), sk)

    def vk_bytes(self, vk, T=AUTH):
        return call("From::from@[u8; 32]<-reddsa::VerificationKey<%s>" % T, vk)

    def ak_bytes(self, fvk):
        return self.vk_bytes(fld(fvk, "ak", "0", "0"))

    def ak_point(self, fvk):
        return some_of(self.from_pt(self.ak_bytes(fvk)))

    def fvk_of_sk(self, sk):
        return self.S("FullViewingKey",
                      ak=self.S("SpendValidatingKey", self.S("VerificationKey", self.vk_of(self.sk_to_ask(sk)))),
                      nk=self.S("NullifierDerivingKey", self.to_base(self.prf(sk, byte(7)))),
                      rivk=self.S("CommitIvkRandomness", self.to_scalar(self.prf(sk, byte(8)))))

    def rivk_int(self, fvk):
        return self.to_scalar(self.prf(self.repr_q(fld(fvk, "rivk", "0")), byte(131), self.ak_bytes(fvk), self.repr_p(fld(fvk, "nk", "0"))))

    def rivk(self, fvk, scope):
        return case(scope, [("External", fld(fvk, "rivk", "0")), ("Internal", self.rivk_int(fvk))])

    def R_dk_ovk(self, fvk, rivk):
        return self.prf(self.repr_q(rivk), byte(130), self.ak_bytes(fvk), self.repr_p(fld(fvk, "nk", "0")))

    def dk(self, fvk, scope):
        return slc(self.R_dk_ovk(fvk, self.rivk(fvk, scope)), I(0), I(32))

    def ovk(self, fvk, scope):
        return slc(self.R_dk_ovk(fvk, self.rivk(fvk, scope)), I(32), I(64))

    def ivk_base(self, fvk, rivk):
        """option of base"""
        return self.commit_ivk(self.x_of(self.ak_point(fvk)), fld(fvk, "nk", "0"), rivk)

    def ivk_scalar(self, fvk, rivk):
        return self.base_to_scalar(some_of(self.ivk_base(fvk, rivk)))

    def ff1(self, dk):
        return ok_of(call("fpe::ff1::FF1::new", dk, I(2)))

    def diversifier(self, dk, j):
        e = ok_of(call("fpe::ff1::FF1::encrypt", self.ff1(dk), arr(), call("fpe::ff1::BinaryNumeralString::from_bytes_le", j)))
        return call("fpe::ff1::BinaryNumeralString::to_bytes_le", e)

    def div_index(self, dk, d):
        e = ok_of(call("fpe::ff1::FF1::decrypt", self.ff1(dk), arr(), call("fpe::ff1::BinaryNumeralString::from_bytes_le", d)))
        return call("fpe::ff1::BinaryNumeralString::to_bytes_le", e)

    def addr(self, d, ivk):
        """d: bytes, ivk: scalar"""
        return self.S("Address", d=self.S("Diversifier", d), pk_d=self.pk_d(ivk, d))

    def pk_d(self, ivk, d):
        return self.S("DiversifiedTransmissionKey", self.S("NonIdentityPallasPoint", self.mul(self.g_d(d), ivk)))

    # ------------------------------------------------------------------ validity of keys
    def ivk_ok(self, fvk, rivk, yes, no):
        """yes if the incoming viewing key for this randomness exists and is non-zero"""
        b = self.ivk_base(fvk, rivk)
        return opt_else(b, no, lambda x: iff(t_eq(ZERO, x), no, yes))

    def sk_valid(self, sk, yes, no):
        fvk = self.fvk_of_sk(sk)
        a = self.to_scalar(self.prf(sk, byte(6)))
        return iff(t_eq(ZERO, a), no,
                   self.ivk_ok(fvk, self.rivk(fvk, self.scope("External")), self.ivk_ok(fvk, self.rivk_int(fvk), yes, no), no))

    def scope(self, v):
        return self.t.new("Scope", variant=v)

    def ak_parse(self, b, yes, no):
        """validating key from 32 bytes: non-identity, cleared sign bit, a point"""
        k = call("TryFrom::try_from@reddsa::VerificationKey<%s><-[u8; 32]" % AUTH, b)
        r = case(k, [("Err", no), ("Ok", yes(self.S("SpendValidatingKey", self.S("VerificationKey", ok_of(k)))))])
        return iff(t_eq(mk("repeat", I(0), I(32)), b), no, case(self.top_bit(b), [("1", no), ("0", r)]))

    def fvk_parse(self, b, yes, no):
        bk, br = self.from_p(slc(b, I(32), I(64))), self.from_q(slc(b, I(64), I(96)))

        def full(ak):
            fvk = self.S("FullViewingKey", ak=ak, nk=self.S("NullifierDerivingKey", some_of(bk)),
                         rivk=self.S("CommitIvkRandomness", some_of(br)))
            v = self.ivk_ok(fvk, fld(fvk, "rivk", "0"), self.ivk_ok(fvk, self.rivk_int(fvk), yes(fvk), no), no)
            return opt_else(bk, no, lambda _: opt_else(br, no, lambda _: v))
        return self.ak_parse(slc(b, I(0), I(32)), full, no)

    # ------------------------------------------------------------------ ZIP 32
    def child(self, sk, cc, i_bytes):
        I_ = self.prf(cc, byte(0x81), sk, i_bytes)
        return slc(I_, I(0), I(32)), slc(I_, I(32), I(64))

    # ------------------------------------------------------------------ note encryption
    def esk_pt(self, note):
        return self.esk(fld(note, "rseed", "0"), fld(note, "rho", "0"))

    def epk_of(self, note):
        return self.mul(self.g_d(fld(note, "recipient", "d", "0")), self.esk_pt(note))

    def kdf(self, secret_pt, epk_bytes):
        """secret_pt: point, epk_bytes: 32 bytes"""
        return self.blake(32, b"Zcash_OrchardKDF", call("GroupEncoding::to_bytes@" + EPA, secret_pt), epk_bytes)

    def ock(self, ovk, cv_bytes, cmx_bytes, epk_bytes):
        return self.blake(32, b"Zcash_Orchardock", ovk, cv_bytes, cmx_bytes, epk_bytes)

    def plaintext(self, note, memo):
        return concat(byte(2), fld(note, "recipient", "d", "0"), call("u64::to_le_bytes", fld(note, "value", "0")), fld(note, "rseed", "0"), memo)

    def out_plaintext(self, note):
        return concat(self.pt_bytes(fld(note, "recipient", "pk_d", "0", "0")), self.repr_q(self.esk_pt(note)))

    def aead(self, key, pt):
        """ChaCha20-Poly1305, zero nonce, no associated data: ciphertext then tag"""
        k = call("KeyInit::new@chacha20poly1305::ChaChaPoly1305", key)
        A = "AeadInPlace::encrypt_in_place_detached@chacha20poly1305::ChaChaPoly1305"
        z = mk("repeat", I(0), I(12))
        return concat(mk("mut", A, 3, k, z, arr(), pt), ok_of(call(A, k, z, arr(), pt)))

    # ------------------------------------------------------------------ note decryption
    def parse(self, pt, rho, pk_d):
        """a plaintext without memo -> option of (note, address). pk_d: the transmission key's point, of the diversifier bytes"""
        d = slc(pt, I(1), I(12))
        a = self.S("Address", d=self.S("Diversifier", d), pk_d=self.S("DiversifiedTransmissionKey", self.S("NonIdentityPallasPoint", pk_d(d))))
        rseed = slc(pt, I(20), I(52))
        n = self.S("Note", recipient=a, value=self.S("NoteValue", call("u64::from_le_bytes", slc(pt, I(12), I(20)))),
                   rho=self.S("Rho", rho), rseed=self.S("RandomSeed", rseed))
        return iff(t_eq(index(pt, I(0)), I(2)),
                   iff(t_eq(ZERO, self.esk(rseed, rho)), NONE, opt_else(self.cm_of(n), NONE, lambda _: some(tup(n, a)))), NONE)

    def parse_ivk(self, pt, rho, ivk):
        return self.parse(pt, rho, lambda d: self.mul(self.g_d(d), ivk))

    def aead_open(self, key, ct, n):
        """(failed?, plaintext) of the ciphertext ct with n bytes before its tag"""
        k = call("KeyInit::new@chacha20poly1305::ChaChaPoly1305", key)
        A = "AeadInPlace::decrypt_in_place_detached@chacha20poly1305::ChaChaPoly1305"
        a = (k, mk("repeat", I(0), I(12)), arr(), slc(ct, I(0), I(n)), slc(ct, I(n), I(n + 16)))
        return call(A, *a), mk("mut", A, 3, *a)

    def opened(self, key, ct, n, f):
        r, pt = self.aead_open(key, ct, n)
        return case(r, [("Err", NONE), ("Ok", f(pt))])

    def checked(self, act, r, memo):
        """the parsed note must have the action's commitment, and its own ephemeral secret the action's ephemeral key"""
        def ok_(na):
            note, a = fld(na, "0"), fld(na, "1")
            same_cm = t_eq(self.repr_p(fld(act, "cmx", "0")), self.repr_p(self.x_of(some_of(self.cm_of(note)))))
            same_epk = t_eq(fld(act, "encrypted_note", "epk_bytes"), self.pt_bytes(self.epk_of(note)))
            return iff(same_cm, iff(same_epk, some(tup(note, a, memo)), NONE), NONE)
        return map_leaves(r, lambda l: NONE if l is NONE else ok_(fld(l, "0")))

    def decrypt(self, act, ivk):
        """full note decryption with an incoming viewing key (its scalar)"""
        enc = fld(act, "encrypted_note")
        epk_b = fld(enc, "epk_bytes")
        rho = fld(act, "nf", "0")

        def at_(p):
            key = self.kdf(self.mul(p, ivk), epk_b)
            return self.opened(key, fld(enc, "enc_ciphertext"), 564, lambda pt: self.checked(act, self.parse_ivk(pt, rho, ivk), slc(pt, I(52), I(564))))
        return opt_else(self.from_pt(epk_b), NONE, lambda p: iff(t_eq(ZERO, p), NONE, at_(p)))

    def recover(self, act, ovk):
        """output recovery with an outgoing viewing key (its bytes)"""
        enc = fld(act, "encrypted_note")
        epk_b = fld(enc, "epk_bytes")
        rho = fld(act, "nf", "0")
        ock = self.ock(ovk, self.pt_bytes(fld(act, "cv_net", "0")), self.repr_p(fld(act, "cmx", "0")), epk_b)

        def with_(pk, esk):
            def note_(pt):
                r = self.parse(pt, rho, lambda d: pk)

                def own(l):
                    n = fld(l, "0", "0")
                    return iff(t_eq(esk, self.esk_pt(n)), self.checked(act, l, slc(pt, I(52), I(564))), NONE)
                return map_leaves(r, lambda l: NONE if l is NONE else own(l))
            return self.opened(self.kdf(self.mul(pk, esk), epk_b), fld(enc, "enc_ciphertext"), 564, note_)

        def out_(op):
            q, e = self.from_pt(slc(op, I(0), I(32))), self.from_q(slc(op, I(32), I(64)))
            return opt_else(q, NONE, lambda p: iff(t_eq(ZERO, p), NONE, opt_else(e, NONE, lambda x: iff(t_eq(ZERO, x), NONE, with_(p, x)))))
        return self.opened(ock, fld(enc, "out_ciphertext"), 64, out_)
