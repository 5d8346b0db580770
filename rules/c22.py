"""C22: no panic reachable from adversary-supplied data; no unsafe code.

For each entry point, every panic its MIR can reach (unwrap and expect of absent values, explicit panics and assertions, index,
slice and arithmetic checks, in the function and everything it calls in the crate) is collected with its path condition. The path
condition must reduce to false, using only the facts listed in FACTS.
"""
from .prim import *
from oflow import concrete
from oflow.terms import guardbool, subterms, contains
from oflow.ranges import interval, typeof, Known, relation

ENTRY = [
    # decoders
    "note::nullifier::Nullifier::from_bytes", "note::commitment::ExtractedNoteCommitment::from_bytes", "note::Rho::from_bytes",
    "note::RandomSeed::from_bytes", "note::Note::from_parts", "value::ValueCommitment::from_bytes", "value::ValueCommitTrapdoor::from_bytes",
    "value::NoteValue::from_bytes", "value::NoteValue::from_raw", "tree::Anchor::from_bytes", "tree::MerkleHashOrchard::from_bytes",
    "bundle::Flags::from_byte", "address::Address::from_raw_address_bytes", "keys::Diversifier::from_bytes",
    "keys::FullViewingKey::from_bytes", "keys::FullViewingKey::read", "keys::IncomingViewingKey::from_bytes",
    "keys::OutgoingViewingKey::from", "keys::SpendingKey::from_bytes", "keys::EphemeralPublicKey::from_bytes",
    "keys::PreparedEphemeralPublicKey::new", "keys::DiversifiedTransmissionKey::from_bytes", "keys::KeyAgreementPrivateKey::from_bytes",
    "keys::SharedSecret::from_bytes", "spec::NonIdentityPallasPoint::from_bytes", "spec::NonZeroPallasBase::from_bytes",
    "spec::NonZeroPallasScalar::from_bytes", "circuit::Proof::new", "circuit::Instance::from_parts", "action::Action::<T>::from_parts",
    "bundle::Bundle::<T, V>::from_parts", "note_encryption::CompactAction::from_parts", "tree::MerklePath::from_parts", "zip32::ExtendedSpendingKey::read",
    # verification and digests
    "bundle::Bundle::<bundle::Authorized, V>::verify_proof", "bundle::Bundle::<T, V>::binding_validating_key",
    "bundle::Bundle::<T, V>::commitment", "bundle::Bundle::<bundle::Authorized, V>::authorizing_commitment",
    "bundle::commitments::hash_bundle_txid_data", "bundle::commitments::hash_bundle_auth_data",
    "bundle::batch::BatchValidator::add_bundle", "bundle::batch::BatchValidator::validate",
    "circuit::Proof::verify", "circuit::Proof::add_to_batch", "circuit::Instance::to_halo2_instance",
    "bundle::Bundle::<T, V>::map_authorization", "bundle::Bundle::<T, V>::try_map_authorization", "bundle::Bundle::<T, V>::try_map_value_balance",
    # trees
    "tree::MerklePath::root", "<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::combine",
    "<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::empty_root", "<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::empty_leaf",
    "tree::Anchor::to_bytes",
    # decryption
    "bundle::Bundle::<T, V>::decrypt_outputs_with_keys", "bundle::Bundle::<T, V>::decrypt_output_with_key",
    "bundle::Bundle::<T, V>::recover_outputs_with_ovks", "bundle::Bundle::<T, V>::recover_output_with_ovk",
    "note_encryption::OrchardDomain::for_action", "note_encryption::OrchardDomain::for_compact_action",
    "note_encryption::orchard_parse_note_plaintext_without_memo",
    # notes, keys and addresses that came from outside
    "note::Note::commitment", "note::Note::nullifier", "note::Note::esk", "note::nullifier::Nullifier::derive", "note::commitment::NoteCommitment::derive",
    "keys::FullViewingKey::to_ivk", "keys::FullViewingKey::to_ovk", "keys::FullViewingKey::address_at", "keys::FullViewingKey::address",
    "keys::FullViewingKey::scope_for_address", "keys::FullViewingKey::to_bytes", "keys::FullViewingKey::derive_internal",
    "keys::IncomingViewingKey::address_at", "keys::IncomingViewingKey::address", "keys::IncomingViewingKey::diversifier_index",
    "keys::IncomingViewingKey::to_bytes", "address::Address::to_raw_address_bytes", "keys::PreparedIncomingViewingKey::new",
    "value::NoteValue::to_bytes", "value::ValueSum::from_raw",
]
TRAITS = ["note_encryption::OrchardDomain as zcash_note_encryption::Domain>::", "zcash_note_encryption::ShieldedOutput<note_encryption::OrchardDomain"]


def fact(x):
    """(label, why) if the selection on x is always decided one way."""
    if x.op == "eq" and any(isinstance(a, T) and a.op == "call" and a.a[0] == "zero" or (a.op == "zero") for a in x.a):
        return nonzero(x)
    if x.op == "eq" and len(x.a) == 2 and any(a is I(0) for a in x.a):
        o = x.a[1] if x.a[0] is I(0) else x.a[0]
        if o.op == "len" and "nonempty::NonEmpty<" in typeof(o.a[0]):
            return "0", "a NonEmpty has an element"
        if o.op == "len" and o.a[0].op == "sym" and o.a[0].a[0] == "plaintext":
            return "0", "the note-encryption crate passes a note plaintext of full length"
    if x.op == "lt" and x.a[1].op == "int" and x.a[0].op == "sym" and x.a[1].a[0] >= 33 and typeof(x.a[0]).endswith("incrementalmerkletree::Level"):
        return "1", "levels of a tree of depth 32 are at most 32"
    if x.op == "lt":
        for i in (0, 1):
            n, o = x.a[i], interval(x.a[1 - i])
            if n.op == "len" and n.a[0].op == "sym" and n.a[0].a[0] == "plaintext" and o and o[1] is not None and o[1] <= 51 + (i == 0):
                return str(i), "the note-encryption crate passes a note plaintext of full length"
    if x.op == "eq" and x.a and any(a.op == "int" for a in x.a):
        n = next(a for a in x.a if a.op == "int").a[0]
        o = next(a for a in x.a if a.op != "int")
        if n == 16 and o.op == "len" and o.a[0].op == "fld" and o.a[0].a[0].op == "as" and is_call(o.a[0].a[0].a[0], "AeadInPlace::encrypt_in_place_detached@chacha20poly1305::"):
            return "1", "the tag is 16 bytes"
        if n == 11 and o.op == "len" and is_call(o.a[0], "fpe::ff1::BinaryNumeralString::to_bytes_le"):
            return "1", "FF1 on 88-bit strings preserves length"
        if n == 32 and o.op == "len" and is_call(o.a[0], "incrementalmerkletree::MerklePath::path_elems"):
            return "1", "a path of const depth 32 has 32 elements"
    if x.op == "bitset":
        i = x.a[0]
        if i.op == "index" and i.a[1] is I(31) and x.a[1] is I(7) and is_call(i.a[0], "From::from@[u8; 32]<-reddsa::VerificationKey<reddsa::orchard::SpendAuth>"):
            return "0", "ak~ = 0 for every spend validating key (checked where one is made: C10, C11)"
    if x.op != "call":
        return None
    n = x.a[0]
    if n.startswith("AeadInPlace::encrypt_in_place_detached@chacha20poly1305::"):
        return "Ok", "plaintexts are shorter than the cipher's limit of 256 GiB"
    if n == "GroupEncoding::from_bytes@pasta_curves::Ep" and is_call(x.a[1], "From::from@[u8; 32]<-reddsa::VerificationKey"):
        return "Some", "reddsa validates the point when a verification key is made"
    if n.startswith("TryFrom::try_from@reddsa::VerificationKey<") and is_call(x.a[1], "GroupEncoding::to_bytes@pasta_curves::Ep"):
        return "Ok", "the encoding of a point decodes"
    if n.startswith("TryFrom::try_from@reddsa::SigningKey<") and is_call(x.a[1], "PrimeField::to_repr@pasta_curves::Fq"):
        return "Ok", "the encoding of a scalar decodes"
    if n == "PrimeField::from_repr@pasta_curves::Fq" and is_call(x.a[1], "PrimeField::to_repr@pasta_curves::Fp"):
        return "Some", "the base field is smaller than the scalar field"
    if n == "fpe::ff1::FF1::new" and x.a[2] is I(2):
        return "Ok", "radix 2 is valid"
    if n in ("fpe::ff1::FF1::encrypt", "fpe::ff1::FF1::decrypt") and is_call(x.a[3], "fpe::ff1::BinaryNumeralString::from_bytes_le"):
        return "Ok", "a binary numeral string of 88 bits is valid for radix 2"
    return None


def lengths(L):
    """whether the lengths agree with the facts about lengths"""
    for v, n in L.n.items():
        if "nonempty::NonEmpty<" in typeof(v) and n < 1:
            return False
        if v.op == "sym" and v.a[0] == "plaintext" and n < 52:
            return False
        if is_call(v, "fpe::ff1::BinaryNumeralString::to_bytes_le") and n != 11 or is_call(v, "incrementalmerkletree::MerklePath::path_elems") and n != 32:
            return False
    return True


def is_call(t, p):
    return isinstance(t, T) and t.op == "call" and t.a[0].startswith(p)


def nonzero(x):
    o = next((a for a in x.a if not (a.op == "zero" or a.op == "call" and a.a[0] == "zero")), None)
    if o is None:
        return None
    if is_call(o, "FromUniformBytes::from_uniform_bytes@pasta_curves::Fq"):
        return "0", "the output of PRF^expand is not zero modulo the scalar field (no input giving zero is known)"
    return None


def key_fact(x):
    """facts about full viewing keys that exist already"""
    if x.op == "call" and "CommitDomain::short_commit" in x.a[0] and contains(x, lambda y: y.op == "str" and y.a[0] == "z.cash:Orchard-CommitIvk"):
        return "Some", "both scopes' ivk exist for a full viewing key that was accepted (C11)"
    if x.op == "eq" and any(a.op == "fld" and a.a[0].op == "as" and is_call(a.a[0].a[0], "halo2_gadgets::sinsemilla::primitives::CommitDomain::short_commit") for a in x.a):
        return "0", "both scopes' ivk are non-zero for a full viewing key that was accepted (C11)"
    return None


def commit_fact(x):
    if x.op == "call" and "CommitDomain::commit" in x.a[0]:
        return "Some", "the note commitment of a note that was accepted exists"
    return None


def rewrite(t):
    """the byte and scalar round trips that hold for every value"""
    m = {}
    for x in subterms(t):
        if is_call(x, "From::from@[u8; 32]<-reddsa::VerificationKey<"):
            k = x.a[1]
            if k.op == "fld" and k.a[0].op == "as" and k.a[0].a[1] == "Ok" and is_call(k.a[0].a[0], "TryFrom::try_from@reddsa::VerificationKey<"):
                m[x] = k.a[0].a[0].a[1]
        if x.op == "eq":
            for a in x.a:
                if a.op == "fld" and a.a[0].op == "as" and a.a[0].a[1] == "Some" and is_call(a.a[0].a[0], "PrimeField::from_repr@pasta_curves::Fq"):
                    r = a.a[0].a[0].a[1]
                    if is_call(r, "PrimeField::to_repr@pasta_curves::Fp"):
                        m[x] = t_eq(ZERO, r.a[1])
    return subst(t, m) if m else t


def scrutinees(t):
    out = []
    for x in subterms(t):
        if x.op == "case":
            out.append(x.a[0])
        elif x.op in BOOL_OPS:
            out.append(x)
    return out


def tidy(t, env=None):
    """each selection decided on its own branches, and branches that contradict the comparisons above them removed"""
    env = env or {}
    if t.op != "case":
        if t.op in BOOL_OPS and env:
            d = Known(env).says(t)
            return t if d is None else I(int(d))
        return t
    out = []
    for l, v in t.a[1]:
        e = env
        if relation(t.a[0]) is not None:
            e = {**env, t.a[0]: l}
            if not Known(e).ok:
                continue
        out.append((l, tidy(assume(v, t.a[0], l), e)))
    return case(t.a[0], out) if out else BOT


def reduce(g, facts, used, splits=6):
    """the path condition by the facts; where one is left, split by the selections inside the numbers that it compares"""
    g = reduce1(g, facts, used)
    if g.op == "int" or g is BOT or not splits:
        return g
    for x in subterms(g):
        if x.op in ("lt", "eq"):
            for a in x.a:
                for y in (a.a if a.op == "add" else (a,)):
                    y = y.a[0] if y.op == "neg" else y
                    if y.op == "case" and nleaves(y, 9) <= 8:
                        return case(y.a[0], [(l, reduce(assume(g, y.a[0], l), facts, used, splits - 1)) for l, _ in y.a[1]])
    return g


def reduce1(g, facts, used):
    for _ in range(30):
        if g.op == "int" or g is BOT:
            return g
        g0 = g
        for s in scrutinees(g):
            for f in facts:
                d = f(s)
                if d:
                    used[d[1]] = used.get(d[1], 0) + 1
                    g = assume(g, s, d[0])
                    break
            if g is not g0:
                break
        if g is g0:
            g = tidy(rewrite(g))
            if g is g0:
                return g
    return g


def check(R):
    un = getattr(R.P, "unsafe", None)
    if un is None:
        R.undecided("unsafe", "src/lib.rs", "the library contains no unsafe block", "not extracted")
    else:
        R.ob("unsafe", un[0] if un else "src/lib.rs", not un, "the library contains no unsafe block", ", ".join(un))
    bad = [i for i in R.P.items if i.get("unsafe")]
    R.ob("unsafe-fn", bad[0]["path"] if bad else "src/lib.rs", not bad, "the library contains no unsafe function", "")
    paths = [p for p in ENTRY if R.has(p)]
    for it in R.P.items:
        if any(t in it["path"] for t in TRAITS) and R.has(it["path"]) and it["path"] not in paths:
            paths.append(it["path"])
        if it["path"].startswith("<primitives::redpallas::") or it["path"].startswith("primitives::redpallas::"):
            if ("TryFrom" in it["path"] or "::verify" in it["path"]) and R.has(it["path"]):
                paths.append(it["path"])
    used = {}
    seen = set()
    for p in paths:
        one(R, p, used, seen)
    R.facts = used


def takes(R, s, p, ty):
    return any(typeof(a) == ty for a in s.args)


RULE = "no panic is reachable from this function on data an adversary may supply (each path condition reduces to false)"


def one(R, p, used, seen, facts=None, rule=RULE):
    try:
        s = R.sum(p)
    except Limit:
        R.undecided("panic", p, "no reachable panic", "analysis limit")
        return
    # a full viewing key or note that is an argument has been accepted before
    if facts is None:
        facts = [fact]
        if takes(R, s, p, "note::Note"):
            facts.append(commit_fact)
        if not p.endswith(("FullViewingKey::from_bytes", "FullViewingKey::read")):
            facts.append(key_fact)
    n, left = 0, []
    for e in s.events:
        if e.kind != "panic":
            continue
        g = guardbool(e.guard())
        if g is FALSE or g is BOT:
            continue
        n += 1
        r = reduce(g, facts, used)
        if r is FALSE or r is BOT:
            continue
        left.append((e, r))
    if not left:
        R.ob("panic:" + p, p, True, rule)
        return
    for e, r in left:
        why = imprecise(r)
        d = "%s at %s in %s when %s" % (e.name, str(e.span).split("/")[-1], e.fn, show(r, 8)[:500])
        if not why and concrete.never(r, lambda x: reduce(guardbool(x), facts, {}) in (FALSE, BOT), lengths):
            why = "no choice of lengths and positions shows it"
        if why:
            R.undecided("panic:" + p, p, rule, why + ": " + d)
        else:
            R.ob("panic:" + p, e.fn, False, rule, d)
            break
