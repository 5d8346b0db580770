"""C13: key tree."""
from .prim import *

K = "keys::"


def check(R):
    s = Spec(R)
    FVK, IVK = K + "FullViewingKey", K + "IncomingViewingKey"
    skb = lambda sk: fld(sk, "0")
    R.fn("ask", "<keys::SpendAuthorizingKey as std::convert::From<&keys::SpendingKey>>::from",
         lambda sk: s.S("SpendAuthorizingKey", s.S("SigningKey", s.sk_to_ask(skb(sk)))),
         "ask = ToScalar(PRF(sk,[6])), negated when the validating key's sign bit is set")
    R.fn("ak", "<keys::SpendValidatingKey as std::convert::From<&keys::SpendAuthorizingKey>>::from",
         lambda ask: s.S("SpendValidatingKey", s.S("VerificationKey", s.vk_of(fld(ask, "0", "0")))), "ak is the public key of ask")
    R.fn("nk", "<keys::NullifierDerivingKey as std::convert::From<&keys::SpendingKey>>::from",
         lambda sk: s.S("NullifierDerivingKey", s.to_base(s.prf(skb(sk), byte(7)))), "nk = ToBase(PRF(sk,[7]))", private=True)
    R.fn("rivk-sk", "<keys::CommitIvkRandomness as std::convert::From<&keys::SpendingKey>>::from",
         lambda sk: s.S("CommitIvkRandomness", s.to_scalar(s.prf(skb(sk), byte(8)))), "rivk = ToScalar(PRF(sk,[8]))", private=True)
    R.fn("fvk", "<keys::FullViewingKey as std::convert::From<&keys::SpendingKey>>::from",
         lambda sk: s.fvk_of_sk(skb(sk)), "full viewing key = (ak, nk, rivk) of the same spending key")
    R.fn("fvk-ext", "<keys::FullViewingKey as std::convert::From<&zip32::ExtendedSpendingKey>>::from",
         lambda x: s.fvk_of_sk(fld(x, "sk", "0")), "full viewing key of an extended key is that of its spending key", private=True)
    R.fn("prf-nf", K + "NullifierDerivingKey::prf_nf", lambda self, rho: s.poseidon2(fld(self, "0"), rho), "PRF_nk(rho) = Poseidon(nk, rho)", private=True)
    R.fn("rivk", FVK + "::rivk", lambda self, sc: s.S("CommitIvkRandomness", s.rivk(self, sc)),
         "rivk is the original one for External and PRF(rivk,[0x83]||ak||nk) for Internal", private=True)
    ivk = lambda fvk, sc: s.S("IncomingViewingKey", dk=s.S("DiversifierKey", s.dk(fvk, sc)),
                              ivk=s.S("KeyAgreementPrivateKey", s.S("NonZeroPallasScalar", s.ivk_scalar(fvk, s.rivk(fvk, sc)))))
    R.fn("ivk", FVK + "::to_ivk", ivk, "incoming viewing key of a scope: dk and ivk from that scope's rivk")
    R.fn("ovk", FVK + "::to_ovk", lambda f, sc: s.S("OutgoingViewingKey", s.ovk(f, sc)), "outgoing viewing key of a scope")
    addr = lambda f, d, sc: s.addr(d, s.ivk_scalar(f, s.rivk(f, sc)))
    R.fn("addr", FVK + "::address", lambda f, d, sc: addr(f, fld(d, "0"), sc), "address = (d, [ivk] g_d) with the scope's ivk")
    j = lambda x: jbytes(R, x)
    R.fn("addr-at", FVK + "::address_at", lambda f, jx, sc: addr(f, s.diversifier(s.dk(f, sc), j(jx)), sc),
         "address_at uses the scope's own dk and ivk")
    R.fn("ivk-addr", IVK + "::address", lambda i, d: s.addr(fld(d, "0"), fld(i, "ivk", "0", "0")), "address of an incoming viewing key")
    R.fn("ivk-addr-at", IVK + "::address_at", lambda i, jx: s.addr(s.diversifier(fld(i, "dk", "0"), j(jx)), fld(i, "ivk", "0", "0")),
         "address_at of an incoming viewing key")
    R.fn("dk-get", K + "DiversifierKey::get", lambda d, jx: s.S("Diversifier", s.diversifier(fld(d, "0"), j(jx))),
         "diversifier = FF1-AES256_dk('', j)")
    R.fn("dk-inv", K + "DiversifierKey::diversifier_index", lambda d, x: s.S("zip32::DiversifierIndex", s.div_index(fld(d, "0"), fld(x, "0"))),
         "diversifier index = inverse FF1")
    R.fn("g_d", "spec::diversify_hash", lambda d: s.S("NonIdentityPallasPoint", s.g_d(d)), "DiversifyHash with fallback", private=True)
    R.fn("commit-ivk", "spec::commit_ivk", lambda a, b, c: s.commit_ivk(a, b, c), "Commit_ivk input order and widths", private=True)
    R.fn("extract", "spec::extract_p", lambda p: s.x_of(p), "Extract_P", private=True)
    R.fn("prepared", K + "PreparedIncomingViewingKey::new", lambda i: s.S("PreparedIncomingViewingKey", s.S("PreparedNonZeroScalar", fld(i, "ivk", "0", "0"))),
         "a prepared viewing key holds the same scalar")
    R.fn("epk", K + "EphemeralSecretKey::derive_public",
         lambda e, g: s.S("EphemeralPublicKey", s.S("NonIdentityPallasPoint", s.mul(fld(g, "0"), fld(e, "0", "0")))), "epk = [esk] g_d", private=True)
    R.fn("ask-rand", K + "SpendAuthorizingKey::randomize",
         lambda a, r: s.S("SigningKey", call("reddsa::SigningKey::randomize", fld(a, "0", "0"), r)), "signing key randomization")
    R.fn("ak-rand", K + "SpendValidatingKey::randomize",
         lambda a, r: s.S("VerificationKey", call("reddsa::VerificationKey::randomize", fld(a, "0", "0"), r)), "validating key randomization")
    R.fn("ak-of-fvk", "<keys::SpendValidatingKey as std::convert::From<keys::FullViewingKey>>::from", lambda f: fld(f, "ak"), "validating key of a full viewing key")
    R.fn("nk-of-fvk", FVK + "::nk", lambda f: fld(f, "nk"), "nullifier key of a full viewing key", private=True)


def jbytes(R, x):
    """the bytes of a diversifier index parameter (impl Into<DiversifierIndex>, or the index itself)"""
    return fld(call("Into::into@impl Into<DiversifierIndex><-zip32::DiversifierIndex", x), "0")
