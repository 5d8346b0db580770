"""C26: building, proving, signing and key derivation report failures; they do not panic on any valid input.

As in C22, every panic the MIR of an entry point can reach, in the function and everything it calls in the crate, is collected with
its path condition, which must reduce to false by the listed facts. The one panic that is part of the interface, on the length of a
seed, must be exactly the documented one.
"""
from .prim import *
from . import c22
from .c22 import is_call, typeof, tidy

B = "builder::"
ENTRY = [
    B + "bundle", B + "Builder::new", B + "Builder::build", B + "Builder::add_spend", B + "Builder::add_output", B + "Builder::value_balance",
    B + "Builder::spends", B + "Builder::outputs", B + "BundleType::num_actions", B + "BundleType::flags", B + "SpendInfo::new", B + "SpendInfo::dummy",
    B + "SpendInfo::has_matching_anchor", B + "OutputInfo::new", B + "OutputInfo::dummy", B + "ActionInfo::new", B + "ActionInfo::build", B + "ActionInfo::value_sum",
    B + "MaybeSigned::finalize", B + "BundleMetadata::spend_action_index", B + "BundleMetadata::output_action_index",
    "circuit::Circuit::from_action_context", "circuit::Proof::create",
    "keys::SpendingKey::random", "keys::SpendingKey::from_zip32_seed", "keys::FullViewingKey::derive_internal", "keys::FullViewingKey::rivk",
    "keys::SpendAuthorizingKey::randomize", "keys::SpendValidatingKey::randomize", "keys::FullViewingKey::to_ivk", "keys::FullViewingKey::to_ovk",
    "keys::DiversifierKey::get", "keys::DiversifierKey::diversifier_index", "keys::PreparedIncomingViewingKey::new",
    "note::Note::new", "note::Note::dummy", "note::Rho::random", "note::RandomSeed::random", "note::nullifier::Nullifier::dummy",
    "tree::MerklePath::dummy", "value::ValueCommitTrapdoor::random", "value::ValueCommitTrapdoor::into_bsk", "value::ValueCommitment::derive",
    "value::ValueCommitment::into_bvk", "bundle::Bundle::<T, V>::to_instances", "action::Action::<T>::to_instance", "action::Action::<T>::map", "action::Action::<T>::try_map",
]
IMPLS = ["builder::<impl bundle::Bundle<builder::InProgress", "builder::InProgress::<"]
DERIVE = ("<keys::", "<value::", "<note::", "<zip32::", "<circuit::")
CONV = ("as std::convert::From", "as std::ops::Sub", "as std::ops::Add", "as std::ops::Neg", "as std::iter::Sum", "as std::convert::TryFrom", "as std::default::Default")


# what these make from random or derived bytes has not been checked by anyone else
NOTES = ("note::RandomSeed::random", "note::Note::new")
KEYS = ("keys::SpendingKey::random", "keys::SpendingKey::from_zip32_seed")


def drawn(x):
    return None if x.op == "eq" and c22.nonzero(x) else fact(x)


def counter(n):
    """how many elements, or the first of them, something holds for"""
    if n.op == "pre" and n.a[1].op == "bigsum":
        n = n.a[1]
    if n.op == "add":
        return sum(y is not I(1) and not counter(y) for y in n.a) == 0
    if n.op != "bigsum":
        return False
    return map_leaves(n.a[1], lambda v: I(v is BOT or v.op == "int" and v.a[0] in (0, 1))) is TRUE


def fact(x):
    f = c22.fact(x)
    if f:
        return f
    if x.op == "lt" and len(x.a) == 2:
        n, c = x.a
        if c is I(1 << 31) and n.op == "fld" and typeof(n.a[0]).endswith("AccountId"):
            return "1", "an account identifier is below 2^31 by its type"
        if c.op == "int" and n.op == "len" and n.a[0].op == "sym" and n.a[0].a[0] == "seed":
            if c.a[0] <= 32:
                return "0", "a seed of 32 to 252 bytes (other lengths are a documented panic, decided separately)"
            if c.a[0] > 252:
                return "1", "a seed of 32 to 252 bytes (other lengths are a documented panic, decided separately)"
        if counter(n) and c.op == "int":
            if c.a[0] >= (1 << 64) - 1:
                return "1", "a 64-bit count of actions does not overflow"
            if c.a[0] < 0:
                return "0", "a 64-bit count of actions does not overflow"
    if x.op == "eq" and any(contains(a, lambda y: y.op == "call" and "reddsa::VerificationKey<reddsa::orchard::Binding>" in y.a[0]) for a in x.a if isinstance(a, T)):
        return "1", "the balance key matches the commitments (C01): the refusal of a bundle for which it does not is part of C01"
    return None


def check(R):
    paths = [p for p in ENTRY if R.has(p)]
    for it in R.P.items:
        p = it["path"]
        if "{" in p or p in paths or not R.has(p):
            continue
        if any(p.startswith(i) for i in IMPLS) or p.startswith(DERIVE) and any(c in p for c in CONV):
            paths.append(p)
    used = {}
    for p in paths:
        facts = [drawn if p in NOTES else fact] + ([] if p in KEYS else [c22.key_fact]) + ([] if p.startswith(("note::Note::", "note::Ra", "note::Rho")) and not c22.takes(R, R.sum(p), p, "note::Note") else [c22.commit_fact])
        c22.one(R, p, used, set(), facts,
                "no panic is reachable from this function on valid input (each path condition reduces to false)")
    R.facts = used
    seed(R)


def seed(R):
    """the documented panic on the length of a seed is there (that no other length panics is part of the entry point's obligation)"""
    p = "keys::SpendingKey::from_zip32_seed"
    if not R.has(p):
        return
    s = R.sum(p)
    n = length(s.args[0])
    key = map_leaves(s.ret, lambda v: FALSE if v is BOT or v.op == "agg" and v.a[1] == "Err" else TRUE)
    made = b_and(guardbool(s.guard), key)
    for e in [e for e in s.events if e.kind == "panic"]:
        made = b_and(b_not(guardbool(e.guard())), made)
    for name, cond, l in (("short", t_lt(n, I(32)), "1"), ("long", t_lt(n, I(253)), "0")):
        q = c22.tidy(assume(made, cond, l), {cond: l})
        rule = "a seed shorter than 32 or longer than 252 bytes is refused"
        good = q is FALSE or q is BOT
        d = "" if good else "a %s seed is accepted when %s" % (name, show(q, 8)[:400])
        if good or not c22.imprecise(q):
            R.ob("seed-length:" + name, p, good, rule, d)
        else:
            R.undecided("seed-length:" + name, p, rule, c22.imprecise(q) + ": " + d)
