"""C27: the memory a value reports is that of every part of it that owns heap memory, each counted once."""
import re
from .prim import *
from oflow.arith import add
from oflow.ranges import typeof

OWNERS = {"Vec", "Box", "String", "Rc", "Arc", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "VecDeque", "BinaryHeap", "LinkedList", "NonEmpty", "Cow",
          "CString", "OsString", "PathBuf", "BitVec"}
TYPES = ("action::Action<primitives::redpallas::Signature<reddsa::orchard::SpendAuth>>", "bundle::Bundle<bundle::Authorized, V>", "circuit::Proof",
         "keys::PreparedIncomingViewingKey", "note::nullifier::Nullifier", "note::Rho", "note_encryption::OrchardDomain")
USE, BND = "DynamicUsage::dynamic_usage@", "DynamicUsage::dynamic_usage_bounds@"


class Unknown(Exception):
    pass


class Heap:
    def __init__(self, adts):
        self.adts = adts
        self.memo = {}

    def owns(self, ty, params=True):
        """can a value of this type own heap memory? (Of a generic type, what its arguments own is asked of the arguments.)"""
        k = (ty, params)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = False
        for w in re.findall(r"[A-Za-z_][\w:]*", re.sub(r"PhantomData<.*?>", "", ty)):
            if w.split("::")[-1] in OWNERS or params and re.fullmatch(r"[A-Z]\d?", w):      # a type parameter may own some
                r = True
            elif w in self.adts:
                r = any(self.owns(f[1], False) for v in self.adts[w]["vs"] for f in v["f"])
            if r:
                break
        self.memo[k] = r
        return r

    def parts(self, ty, t):
        """The places within t (of type ty) that own heap memory."""
        head, args = split(ty)
        a = self.adts.get(head)
        if a is None or not a.get("local"):
            return [t] if self.owns(ty) else []
        if a["enum"]:
            if self.owns(ty):
                raise Unknown("the enum " + head + " owns heap memory")
            return []
        fields = a["vs"][0]["f"]
        params = []
        for f in fields:
            for w in re.findall(r"\b[A-Z]\d?\b", f[1]):
                if w not in params:
                    params.append(w)
        m = dict(zip(params, args))
        out = []
        for f in fields:
            ft = re.sub(r"\b[A-Z]\d?\b", lambda x: m.get(x.group(0), x.group(0)), f[1])
            out += self.parts(ft, fld(t, f[0]))
        return out


def split(ty):
    """the constructor of a type and its arguments"""
    m = re.match(r"^([\w:]+)<(.*)>$", ty)
    if not m:
        return ty, []
    args, depth, cur = [], 0, ""
    for c in m.group(2):
        depth += (c == "<") - (c == ">")
        if c == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
    return m.group(1), args + [cur.strip()]


def check(r):
    h = Heap(r.P.adts)
    seen = {}
    for it in r.P.items:
        m = re.match(r"^<(.*) as memuse::DynamicUsage>::dynamic_usage$", it["path"])
        if m:
            seen[m.group(1)] = it
    for ty in list(TYPES) + sorted(set(seen) - set(TYPES)):
        f = "<%s as memuse::DynamicUsage>::dynamic_usage" % ty
        if not r.has(f):
            r.undecided("usage", f, "the memory reported covers every part that owns any", "not found")
            continue
        for path, kind in ((f, USE), (f + "_bounds", BND)):
            x = r.sum(path)
            one(r, h, ty, path, kind, x.ret, x.args[0])


def one(r, h, ty, f, kind, got, me):
    rule = "the memory reported is the sum over the parts of the value that own heap memory, each once" if kind is USE else \
        "both bounds are the sums of the bounds of the parts that own heap memory, each once"
    oid = "usage" if kind is USE else "bounds"
    try:
        want = h.parts(ty, me)
    except Unknown as e:
        return r.undecided(oid, f, rule, str(e))
    names, none = {}, {}
    for c in subterms(got):
        if c.op == "call" and isinstance(c.a[0], str) and c.a[0].startswith(kind):
            t = c.a[1]
            if t in want:
                names[t] = c
            elif typeof(t) and not h.owns(typeof(t)):
                none[c] = I(0) if kind is USE else tup(I(0), some(I(0)))
    got = subst(got, none) if none else got
    # the size of a type is some number, and no part's use
    sizes = {c: mk("sym", show(c, 3), "usize") for c in subterms(got) if c.op == "call" and isinstance(c.a[0], str) and re.search(r"\bsize_of\b", c.a[0])}
    got = subst(got, sizes) if sizes else got
    calls = []
    for t in want:
        if t in names:
            calls.append(names[t])
        elif contains(got, mk("len", t)) and not contains(subst(got, {mk("len", t): I(0)}), t):
            r.ob(oid, f, False, rule, "%s is counted by its length, not by the memory it holds" % show(t, 4), val=got)
            return
        elif contains(got, t):
            return r.undecided(oid, f, rule, "%s is measured in another way" % show(t, 4))
        else:
            # a whole that contains it may be measured by something not seen through
            whole = set()
            while t.op == "fld":
                t = t.a[0]
                whole.add(t)
            if any(y in whole for x in subterms(got) if x.op != "fld" for y in x.a if isinstance(y, T)) or got in whole:
                return r.undecided(oid, f, rule, "%s is measured in another way" % show(t, 4))
            r.ob(oid, f, False, rule, "a part that owns heap memory is not counted (counted: %s)" % (", ".join(show(x, 4) for x in names) or "nothing"))
            return
    if kind is USE:
        e = add(*calls)
    else:
        up = some(add(*[some_of(fld(c, "1")) for c in calls]))
        for c in reversed(calls):
            up = case(fld(c, "1"), [("None", NONE), ("Some", up)])
        e = tup(add(*[fld(c, "0") for c in calls]), up)
    r.eq(oid, f, got, e, rule)
