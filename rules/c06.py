"""C06: only a completely and correctly signed bundle becomes authorized."""
from .prim import *

PRE = "builder::<impl bundle::Bundle<builder::InProgress<"
PREP = PRE + "P, builder::Unauthorized>, V>>::prepare"
SIGN = PRE + "P, builder::PartiallyAuthorized>, V>>::sign"
APPS = PRE + "P, builder::PartiallyAuthorized>, V>>::append_signatures"
APP1 = PRE + "P, builder::PartiallyAuthorized>, V>>::append_signature"
FIN = PRE + "circuit::Proof, builder::PartiallyAuthorized>, V>>::finalize"
APPLY = PRE + "circuit::Proof, builder::Unauthorized>, V>>::apply_signatures"
ACTION = ("nf", "rk", "cmx", "encrypted_note", "cv_net", "authorization")


def unrand(t, memo=None):
    """signatures without the identity of their draw: what is signed, and by which key"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "rand":
        r = call("drawn:" + t.a[0], *[unrand(x, memo) for x in t.a[3:]])
    elif t.op == "case":
        r = case(unrand(t.a[0], memo), [(l, unrand(v, memo)) for l, v in t.a[1]])
    elif any(isinstance(x, T) for x in t.a):
        na = tuple(unrand(x, memo) if isinstance(x, T) else x for x in t.a)
        r = t if all(p is q for p, q in zip(na, t.a)) else rebuild(t.op, na)
    else:
        r = t
    memo[t] = r
    return r


class Sig:
    def __init__(self, r):
        self.r, self.s = r, Spec(r)

    def signed(self, key, msg):
        return self.s.S("Signature", call("drawn:reddsa::SigningKey::sign", key, msg))

    def spend_sig(self, ask, alpha, msg):
        """ask: SpendAuthorizingKey term"""
        return self.signed(call("reddsa::SigningKey::randomize", fld(ask, "0", "0"), alpha), msg)

    def maybe(self, variant, x):
        return self.s.t.new("MaybeSigned", x, variant=variant)

    def actions(self, acts, f):
        e = elem(acts)
        return smap(acts, self.s.S("Action", **{k: (f(e) if k == "authorization" else fld(e, k)) for k in ACTION}))

    def bundle(self, me, acts, auth):
        return self.s.t.with_("Bundle", me, actions=acts, authorization=auth)

    def prep_action(self, e, msg):
        au = fld(e, "authorization")
        d = fld(au, "dummy_ask")
        return opt_else(d, self.maybe("SigningMetadata", fld(au, "parts")), lambda k: self.maybe("Signature", self.spend_sig(k, fld(au, "parts", "alpha"), msg)))

    def prep(self, me, msg):
        au = fld(me, "authorization")
        s = self.s
        pa = s.S("PartiallyAuthorized", binding_signature=self.signed(fld(au, "sigs", "bsk", "0"), msg), sighash=msg)
        return self.bundle(me, self.actions(fld(me, "actions"), lambda e: self.prep_action(e, msg)), s.S("InProgress", proof=fld(au, "proof"), sigs=pa))

    def sign_action(self, e, ask, msg):
        au = fld(e, "authorization")
        p = fld(as_(au, "SigningMetadata"), "0")
        ak = lambda v: self.s.vk_bytes(v)
        mine = t_eq(ak(fld(p, "ak", "0", "0")), ak(self.s.vk_of(fld(ask, "0", "0"))))
        return case(au, [("Signature", au), ("SigningMetadata", iff(mine, self.maybe("Signature", self.spend_sig(ask, fld(p, "alpha"), msg)), au))])

    def msg(self, me):
        return fld(me, "authorization", "sigs", "sighash")

    def sign(self, me, ask):
        return self.bundle(me, self.actions(fld(me, "actions"), lambda e: self.sign_action(e, ask, self.msg(me))), fld(me, "authorization"))

    def valid(self, e, sig, msg):
        """the signature is valid for this action's key: Err / Ok"""
        p = fld(as_(fld(e, "authorization"), "SigningMetadata"), "0")
        return call("reddsa::VerificationKey::verify", call("reddsa::VerificationKey::randomize", fld(p, "ak", "0", "0"), fld(p, "alpha")), msg, fld(sig, "0"))

    def append_action(self, e, sig, msg):
        au = fld(e, "authorization")
        return case(au, [("Signature", au), ("SigningMetadata", case(self.valid(e, sig, msg), [("Err", au), ("Ok", self.maybe("Signature", sig))]))])

    def count(self, me, sig):
        acts = fld(me, "actions")
        e = elem(acts)
        return bigsum(acts, case(fld(e, "authorization"), [("Signature", I(0)), ("SigningMetadata", case(self.valid(e, sig, self.msg(me)), [("Err", I(0)), ("Ok", I(1))]))]))

    def append_acts(self, me, acts, sig):
        return self.actions(acts, lambda e: self.append_action(e, sig, self.msg(me)))

    def append(self, me, sig):
        return self.bundle(me, self.append_acts(me, fld(me, "actions"), sig), fld(me, "authorization"))

    def finished(self, acts, auth_of, rest):
        e = elem(acts)
        au = fld(e, "authorization")
        missing = mk("any", acts, case(au, [("Signature", I(0)), ("SigningMetadata", I(1))]))
        return iff(missing, err(self.error("MissingSignatures")), ok(rest(self.actions(acts, lambda e: fld(as_(fld(e, "authorization"), "Signature"), "0")), auth_of)))

    def error(self, v):
        return self.s.t.new("BuildError", variant=v)

    def finalize(self, me):
        au = fld(me, "authorization")
        done = self.s.S("Authorized", proof=fld(au, "proof"), binding_signature=fld(au, "sigs", "binding_signature"))
        return self.finished(fld(me, "actions"), done, lambda acts, a: self.bundle(me, acts, a))


def check(r):
    g = Sig(r)
    s = g.s

    def fn(oid, path, want, rule, private=False):
        if not r.has(path):
            if not private:
                raise Missing(path)
            return
        x = r.sum(path)
        r.eq(oid, path, unrand(x.ret), want(*x.args), rule)
        return x

    fn("prepare", PREP, lambda me, rng, h: g.prep(me, h),
       "the signature hash is stored; the balance key signs it; a padding spend's own key, randomized by its action's randomizer, signs it; every other action awaits its signature")
    fn("sign", SIGN, lambda me, rng, k: g.sign(me, k),
       "the key, randomized by the action's own randomizer, signs the stored hash for exactly the unsigned actions whose validating key is its own")
    fn("finalize", FIN, lambda me: g.finalize(me), "a bundle is authorized only if no signature is missing, with its own signatures in place")

    def one(me, sig):
        n = g.count(me, sig)
        return iff(t_eq(I(0), n), err(g.error("InvalidExternalSignature")), iff(t_eq(I(1), n), ok(g.append(me, sig)), err(g.error("DuplicateSignature"))))
    fn("append", APP1, one, "an external signature is accepted only if it verifies for exactly one unsigned action, over the stored hash, and is put there", private=True)
    several(r, g)
    apply_(r, g)
    # the signature wrappers
    P = "primitives::redpallas::"
    for T_, n in ((AUTH, "spend"),):
        r.fn("randomize.sk", P + "SigningKey::randomize", lambda k, a: s.S("SigningKey", call("reddsa::SigningKey::randomize", fld(k, "0"), a)), "keys are randomized with the randomizer given")
        r.fn("randomize.vk", P + "VerificationKey::randomize", lambda k, a: s.S("VerificationKey", call("reddsa::VerificationKey::randomize", fld(k, "0"), a)), "keys are randomized with the randomizer given")
    x = r.sum(P + "SigningKey::sign")
    r.eq("sign.key", P + "SigningKey::sign", unrand(x.ret), g.signed(fld(x.args[0], "0"), x.args[2]), "a signature is by the key, over the message")
    r.fn("verify", P + "VerificationKey::verify", lambda k, m, sg: call("reddsa::VerificationKey::verify", fld(k, "0"), m, fld(sg, "0")), "verification is of the signature over the message, under the key")
    r.fn("ask.randomize", "keys::SpendAuthorizingKey::randomize", lambda k, a: s.S("SigningKey", call("reddsa::SigningKey::randomize", fld(k, "0", "0"), a)), "keys are randomized with the randomizer given")
    r.fn("ak.randomize", "keys::SpendValidatingKey::randomize", lambda k, a: s.S("VerificationKey", call("reddsa::VerificationKey::randomize", fld(k, "0", "0"), a)), "keys are randomized with the randomizer given")
    r.fn("ak.eq", "<keys::SpendValidatingKey as std::cmp::PartialEq>::eq", lambda a, b: t_eq(s.vk_bytes(fld(a, "0", "0")), s.vk_bytes(fld(b, "0", "0"))), "validating keys are compared in full")
    r.fn("ak.of", "<keys::SpendValidatingKey as std::convert::From<&keys::SpendAuthorizingKey>>::from",
         lambda k: s.S("SpendValidatingKey", s.S("VerificationKey", s.vk_of(fld(k, "0", "0")))), "the validating key is the authorizing key's own")


def several(r, g):
    """every signature given is appended in turn; the first refusal is returned"""
    x = r.sum(APPS)
    me, sigs = x.args
    acc, e = mk("accv", sigs), elem(sigs)
    got = unrand(x.ret)
    F = g.bundle(me, mk("fold", sigs, fld(me, "actions"), g.append_acts(me, acc, e)), fld(me, "authorization"))
    p = t_pre(sigs, F)
    n = g.count(p, e)
    bad = b_or(t_eq(I(0), n), b_not(t_eq(I(1), n)))
    why = iff(t_eq(I(0), n), g.error("InvalidExternalSignature"), g.error("DuplicateSignature"))
    r.eq("append.all", APPS, got, iff(mk("any", sigs, bad), err(mk("first", sigs, bad, why)), ok(F)),
         "signatures are appended one after the other, each refused unless it verifies for exactly one action still unsigned by then")


def apply_(r, g):
    """prepare, sign with each key in turn, finalize"""
    x = r.sum(APPLY)
    me, rng, h, keys = x.args
    p = g.prep(me, h)
    acc = mk("accv", keys)
    acts = mk("fold", keys, fld(p, "actions"), g.actions(acc, lambda e: g.sign_action(e, elem(keys), h)))
    au = fld(p, "authorization")
    done = g.s.S("Authorized", proof=fld(au, "proof"), binding_signature=fld(au, "sigs", "binding_signature"))
    want = g.finished(acts, done, lambda a, z: g.bundle(me, a, z))
    r.eq("apply", APPLY, unrand(x.ret), want, "applying signatures is preparing, signing with every key given, and finalizing")
