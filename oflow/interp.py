"""Interprocedural value-flow analysis over MIR.

Every function body is processed block by block in topological order; at a control-flow join the
values of each place are merged into a decision term over the branch conditions (gated value flow),
loops over sequences are summarised as per-element terms and folds, and calls to functions whose
body is available are analysed in place. Calls without a body stay opaque terms. No path is
enumerated, nothing is executed and no solver is involved; two computations are "the same" exactly
when their normalised terms are identical.
"""
import re
from .terms import *
from .arith import *
from .ranges import t_fits, t_ovf, t_abs, learn, most
from .seqs import *
from .mir import Program, peel, strip_generics


class Event:
    __slots__ = ("kind", "name", "args", "guards", "span", "fn", "ctx", "val", "f", "stack")

    def __init__(self, kind, name, args, guards, span, fn, ctx, val=None, f=None, stack=()):
        self.kind, self.name, self.args, self.guards = kind, name, args, guards
        self.span, self.fn, self.ctx, self.val, self.f, self.stack = span, fn, ctx, val, f, stack

    def guard(self):
        g = TRUE
        for x in self.guards:
            g = g_and(g, x)
        return g


class Summary:
    def __init__(self, ret, args, final, events, guard):
        self.ret, self.args, self.final, self.events, self.guard = ret, args, final, events, guard


def last2(p):
    return "::".join(p.split("::")[-2:])


_norm_re = re.compile(r"^(?:core|std|alloc)::(slice|num|str|array|vec|option)::<impl ([^>]*)>::(\w+)$")


def cname(f):
    if "trait" in f:
        return f["trait"].split("::")[-1] + "::" + f["m"]
    p = strip_generics(f["fn"])
    m = _norm_re.match(p)
    if m:
        return "%s::%s" % (m.group(1), m.group(3))
    return last2(p)


_bad_arg = re.compile(r"closure|^impl |^'|^[A-Z][A-Za-z0-9]*$")


_lib_arg = re.compile(r"^(std|core|alloc|&|\\*|bitvec::)")


def clean_args(args):
    return [a for a in args if not _bad_arg.search(a) and "{" not in a and not _lib_arg.match(a) and "Iter" not in a]


def oname(f):
    """Stable name of an opaque callee."""
    if "trait" in f:
        n = "%s@%s" % (cname(f), short_ty(peel(f.get("self", ""))))
        if f["m"] in ("from", "try_from", "into", "try_into") and len(f.get("args", [])) > 1:
            n += "<-%s" % short_ty(peel(f["args"][1]))
        return n
    p = strip_generics(f.get("rfn", f["fn"]))
    a = [x for x in clean_args(f.get("args", []))]
    return p + ("<%s>" % ",".join(short_ty(x) for x in a) if a else "")


_closure_ty = re.compile(r"\{closure@[^}]*\}")


_long_ty = re.compile(r"\b((?:chacha20poly1305|aes::cipher::generic_array|generic_array)::\w+(?:::\w+)*)<.*>")


def short_ty(t):
    return _long_ty.sub(r"\1", _closure_ty.sub("{closure}", t))


ARR_LEN = re.compile(r"^\[.*; (\d+)\]$")


def is_lossy_map(s):
    return s.op == "map" and s.a[1].op == "unk"


class Interp:
    MAXDEPTH = 80

    def __init__(self, prog):
        self.p = prog
        self.ncell = 0
        self.uid = 0
        self.events = []
        self.gstack = []
        self.callstack = []
        self.loopctx = []
        self.force = False
        self.folded = []
        self.ctx = []
        self.fnrefs = {}
        self.opaque = set()      # paths never analysed in place
        self.steps = 0
        self.visited = set()
        self.constmemo = {}
        self.blurred = ()       # the elements a place may be, when it is one of several
        self.eachseq = []       # sequences being handed to a closure, element by element
        self.itm = {}            # cell of a mutably iterated element -> (cell, path, space)
        self.alen = {}           # (adt, field) -> array length
        for k, a in prog.adts.items():
            for v in a["vs"]:
                for nm, ty, _ in v["f"]:
                    m = ARR_LEN.match(peel(ty))
                    if m:
                        self.alen[(k, nm)] = int(m.group(1))
        self.adtvars = {}
        for k, a in prog.adts.items():
            self.adtvars[k] = {v["d"]: v["n"] for v in a["vs"]}
        from . import models
        self.models = models.MODELS
        self.bounded = models.BOUNDED
        self.prefix_models = models.PREFIX

    # ------------------------------------------------------------ cells
    def newcell(self):
        self.ncell += 1
        return self.ncell

    def ref(self, cell, path=()):
        return mk("ref", cell, path)

    def read(self, st, cell, path=()):
        v = st.get(cell, BOT)
        for p in path:
            v = self.proj(v, p)
        return v

    def val(self, st, v):
        """Value behind references."""
        n = 0
        while v.op == "ref" and n < 20:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        if v.op == "case" and contains_ref(v):
            v = map_leaves(v, lambda l: self.val(st, l))
        return v

    def deep(self, st, v, memo=None):
        """Value with references inside aggregates resolved too."""
        v = self.val(st, v)
        if not contains_ref(v):
            return v
        if v.op == "agg":
            return agg(v.a[0], v.a[1], v.a[2], *[self.deep(st, x) for x in v.a[3:]])
        if v.op == "case":
            return map_leaves(v, lambda l: self.deep(st, l))
        if v.op in ("map", "filt", "zip", "concat", "upd", "fld", "call"):
            return rebuild(v.op, [self.deep(st, x) if isinstance(x, T) else x for x in v.a])
        return v

    # ------------------------------------------------------------ projections
    def proj(self, v, p):
        if v is BOT:
            return BOT
        if v.op == "case":
            return map_leaves(v, lambda l: self.proj(l, p))
        k = p[0]
        if k == "f":
            n = p[1]
            if v.op == "agg":
                r = agg_get(v, n)
                if r is not None:
                    return r
                return unk("nofield %s of %s" % (n, v.a[0]))
            if v.op == "upd":
                if v.a[1] == p:
                    return v.a[3]
                if v.a[1][0] in ("f",):
                    return self.proj(v.a[0], p)
            if v.op in ("uninit", "int"):
                return v        # a constant of a one-field struct is its scalar
            return mk("fld", v, n)
        if k == "v":
            if v.op == "agg":
                return v if v.a[1] == p[1] else BOT
            if v.op == "upd" and v.a[1] == p:
                return v.a[3]
            if v.op == "uninit":
                return v
            return mk("as", v, p[1])
        if k == "i":
            return index(v, p[1])
        if k == "c":
            off, fe = p[1], p[2]
            if fe:
                n = known_len(v)
                if n is not None:
                    return index(v, I(n - off))
                return index(v, add(length(v), I(-off)))
            return index(v, I(off))
        if k == "s":
            lo, hi = p[1], p[2]
            return slc(v, lo, hi)
        if k == "ss":
            n = known_len(v)
            lo, to, fe = p[1], p[2], p[3]
            if fe:
                hi = I(n - to) if n is not None else (None if to == 0 else add(length(v), I(-to)))
            else:
                hi = I(to)
            return slc(v, I(lo), hi)
        return unk("proj")

    def setp(self, old, path, new):
        if not path:
            return new
        p = path[0]
        if old is BOT or old is None:
            old = mk("uninit")
        if old.op == "case":
            return map_leaves(old, lambda l: self.setp(l, path, new))
        sub = self.setp(self.proj(old, p), path[1:], new) if len(path) > 1 else new
        k = p[0]
        if k == "f":
            if old.op == "agg" and p[1] in old.a[2]:
                return agg_set(old, p[1], sub)
            if old.op == "uninit" or (old.op == "agg" and old.a[0] == "partial"):
                names = list(old.a[2]) if old.op == "agg" else []
                vals = list(old.a[3:]) if old.op == "agg" else []
                return agg("partial", "", tuple(names + [p[1]]), *(vals + [sub]))
            if old.op == "upd" and old.a[1] == p:
                return mk("upd", old.a[0], p, None or UNIT, sub)
            return mk("upd", old, p, UNIT, sub)
        if k == "v":
            if old.op == "agg" and old.a[1] == p[1]:
                return sub
            return sub if sub.op == "agg" else mk("upd", old, p, UNIT, sub)
        if k == "i" or (k == "c" and not p[2]):
            i = p[1] if k == "i" else I(p[1])
            if i.op == "int":
                if is_arr(old) and i.a[0] < len(old.a) - 3:
                    return agg_set(old, str(i.a[0]), sub)
                r = self.setseg(old, i.a[0], i.a[0] + 1, mk("el", sub))
                if r is not None:
                    return r
            return mk("upd", old, ("i",), i, sub)
        if k == "s":
            lo, hi = p[1], p[2]
            if lo.op == "int":
                h = hi.a[0] if (hi is not None and hi.op == "int") else known_len(old)
                if h is not None:
                    r = self.setseg(old, lo.a[0], h, sub)
                    if r is not None:
                        return r
            return mk("upd", old, ("s",), mk("rng", lo, hi if hi is not None else mk("end")), sub)
        return unk("setp")

    def setseg(self, old, lo, hi, v):
        if old.op == "segs":
            n, b = old.a[0], old.a[1]
            parts = seg_parts(old)
        else:
            n, b = known_len(old), old
            if n is None:
                n = "?"
            parts = []
            if is_arr(old) and n is not None and n > 128:
                return None
        out = []
        for l, h, x in parts:
            if h <= lo or l >= hi:
                out.append((l, h, x))
            else:
                if l < lo:
                    out.append((l, lo, slc(x, I(0), I(lo - l))))
                if h > hi:
                    out.append((hi, h, slc(x, I(hi - l), I(h - l))))
        if isinstance(n, int) and hi > n:
            return None
        out.append((lo, hi, v))
        return segs(n, b, out)

    def write(self, st, loc, v):
        """loc: ('loc', cell, path) | ('multi', [(guard, cell, path)])"""
        if loc[0] == "loc":
            _, c, path = loc
            st[c] = self.setp(st.get(c, BOT), path, v) if path else v
            if c in self.itm:
                self.smudge(st, c)
        elif loc[0] == "multi":
            for g, c, path in loc[1]:
                old = st.get(c, BOT)
                st[c] = ite(g, self.setp(old, path, v), old)
                if c in self.itm:
                    self.smudge(st, c)
        elif loc[0] == "val":
            # a write through a value that is no tracked place is lost, but not what it may have changed
            for c in self.itermuts(loc[1]):
                self.smudge(st, c, True)

    def smudge(self, st, tmp, lost=False):
        """A mutably iterated element is written, and no loop that hands them out is there to say which one it is."""
        if any(tmp in self.itermuts(x) for x in self.eachseq) or any(tmp in self.itermuts(c["it"]) for c in self.loopctx if c["it"] is not None):
            return
        cell, path, space = self.itm[tmp]
        if cell in st:
            cur = self.read(st, cell, path)
            v = st.get(tmp, BOT)
            if lost or v is BOT or is_lossy_map(cur):
                v = unk("iter_mut")
            else:
                v = case(unk("iter_mut"), [("1", v), ("0", elem(space))])
            self.write(st, ("loc", cell, path), smap(space, v))

    # ------------------------------------------------------------ places
    def place(self, fr, st, pl):
        """-> ('loc', cell, path) | ('val', term) | ('multi', ...)"""
        cell = fr[pl[0]]
        cur = ("loc", cell, ())
        for p in pl[1]:
            k = p[0]
            if k == "*":
                v = self.rd(st, cur)
                if v.op == "ref":
                    cur = ("loc", v.a[0], v.a[1])
                elif v.op == "case" and contains_ref(v):
                    alts = []
                    okk = True
                    for g, leaf in guards_of(v):
                        if leaf.op == "ref":
                            alts.append((g, leaf.a[0], leaf.a[1]))
                        else:
                            okk = False
                    cur = ("multi", alts) if okk else ("val", self.val(st, v))
                else:
                    # not a tracked reference: keep the place itself (transparent pointer)
                    if self.itm and contains_ref(v):
                        self.blurred = self.itermuts(v)
                    if cur[0] == "loc":
                        pass
                    else:
                        cur = ("val", v)
                continue
            if k == "f":
                if p[2] in ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::boxed::Box"):
                    continue        # wrappers around the value itself
                q = ("f", p[1])
            elif k == "v":
                q = ("v", p[1])
            elif k == "i":
                q = ("i", self.rd(st, ("loc", fr[p[1]], ())))
            elif k == "c":
                q = ("c", p[1], p[2])
            elif k == "s":
                q = ("ss", p[1], p[2], p[3])
            else:
                continue
            if cur[0] == "loc":
                cur = ("loc", cur[1], cur[2] + (q,))
            elif cur[0] == "multi":
                cur = ("multi", [(g, c, pa + (q,)) for g, c, pa in cur[1]])
            else:
                cur = ("val", self.proj(cur[1], q))
            if k == "f" and p[2]:
                self.note_type(st, cur, p[2], p[1])
        return cur

    def note_type(self, st, cur, owner, field):
        n = self.alen.get((owner, field))
        if n is not None:
            v = self.rd(st, cur)
            if v.op == "fld":
                LEN.setdefault(v, n)

    def learn_len(self, v, ty):
        m = ARR_LEN.match(peel(ty))
        if m and v.op in ("sym", "fld", "call", "rand", "elem", "mut", "named", "as", "at", "index", "unk"):
            if v.op == "sym" and len(v.a) > 1 and re.match(r"^\[[^;]*\]$", peel(v.a[1])):
                return      # a slice of any length, converted where its length is known
            LEN.setdefault(v, int(m.group(1)))

    def rd(self, st, loc):
        if loc[0] == "loc":
            return self.read(st, loc[1], loc[2])
        if loc[0] == "val":
            return loc[1]
        r = BOT
        for g, c, pa in loc[1]:
            r = ite(g, self.read(st, c, pa), r)
        return r

    # ------------------------------------------------------------ constants
    def const(self, j, st=None):
        if "fndef" in j:
            return self.fnval(j["fndef"])
        if "closure" in j:
            return agg("closure:%d" % j["closure"], "", ())
        if "promoted" in j:
            return self.constbody(j["promoted"])
        v = j.get("val")
        if v is not None:
            r = self.constval(v)
            if r is not None and not ("rdef" in j and "inst" in j and r.op == "named"):
                return r
        if "inst" in j:
            return self.constbody(j["inst"])
        if "def" in j:
            d = j.get("rdef", j["def"])
            last = d.split("::")[-1]
            if last == "ZERO":
                return ZERO
            return mk("named", strip_generics(d))
        if "tyc" in j:
            return mk("named", j["tyc"])
        if j["c"] == "()":
            return UNIT
        return unk("const %s" % j["c"])

    def constval(self, v):
        if "int" in v:
            return I(int(v["int"]))
        if "str" in v:
            return S(v["str"])
        if "hex" in v:
            return mk("bytes", v["hex"], v["es"]) if v["hex"] else arr()
        if "arr" in v:
            xs = [self.constval(x) for x in v["arr"]]
            return arr(*xs) if all(x is not None for x in xs) else None
        if "tup" in v:
            xs = [self.constval(x) for x in v["tup"]]
            return tup(*xs) if all(x is not None for x in xs) else None
        if "static" in v:
            if "inst" in v:
                return self.constbody(v["inst"])
            return mk("named", v["static"])
        if "fnptr" in v:
            return self.fnval(v["fnptr"])
        return None

    def constbody(self, bid):
        r = self.constmemo.get(bid)
        if r is None:
            b = self.p.bodies.get(bid)
            if b is None:
                return unk("nobody")
            self.constmemo[bid] = mk("named", b.path)
            try:
                ev = len(self.events)
                r, st, g = self.run(b, [], {})
                del self.events[ev:]
                r = self.deep(st, r)
            except Limit:
                r = mk("named", b.path)
            if r is BOT:
                r = mk("named", b.path)
            self.constmemo[bid] = r
        return r

    def fnval(self, f):
        key = f.get("rfn", f["fn"]) + "<" + ",".join(f.get("args", [])) + ">" + str(f.get("inst", ""))
        self.fnrefs[key] = f
        return mk("fn", key)

    # ------------------------------------------------------------ running a body
    def run(self, body, args, st, spread_ok=False):
        """Returns (value, store, guard of normal return)."""
        if len(self.callstack) > self.MAXDEPTH:
            raise Limit("depth")
        body.prepare()
        self.visited.add(body.id)
        self.callstack.append(body)
        base = self.ncell
        self.ncell += len(body.locals)
        fr = range(base + 1, base + 1 + len(body.locals))
        st2 = dict(st)
        for i, a in enumerate(args):
            st2[fr[1 + i]] = a
        self.gstack.append(TRUE)
        try:
            exits = self.region(body, fr, 0, None, TRUE, st2)
        finally:
            self.gstack.pop()
            self.callstack.pop()
        rets = exits.get("RET", [])
        if not rets:
            return BOT, dict(st), FALSE
        g, so = self.merge(rets)
        v = so.get(fr[0], UNIT)
        keep = set(st.keys())
        out = {}
        lo, hi = base + 1, base + len(body.locals)
        for c, x in so.items():
            if c in keep or not (lo <= c):
                out[c] = x
        # keep cells that references in the result point to
        need = refs_in(v)
        for c in list(out):
            need |= refs_in(out[c])
        todo = [c for c in need if c in so and c not in out]
        while todo:
            c = todo.pop()
            out[c] = so[c]
            todo.extend(d for d in refs_in(so[c]) if d in so and d not in out)
        return v, out, g

    def merge(self, lst):
        if len(lst) == 1:
            return lst[0]
        g = FALSE
        for x, _ in lst:
            g = g_or(g, x)
        first = lst[0][1]
        keys = set()
        for _, s in lst:
            keys.update(s.keys())
        out = {}
        for c in keys:
            v0 = first.get(c, BOT)
            same = True
            for _, s in lst[1:]:
                if s.get(c, BOT) is not v0:
                    same = False
                    break
            if same:
                out[c] = v0
                continue
            out[c] = mux([(gi, s.get(c, BOT)) for gi, s in lst])
        return g, out

    def region(self, body, fr, entry, nodes, guard, st):
        """Evaluates an acyclic region (inner loops summarised). nodes None = whole body."""
        pend = {entry: [(guard, st)]}
        exits = {}
        start = True
        for b in body.rpo:
            if nodes is not None and b not in nodes:
                continue
            if b not in pend:
                continue
            g, s = self.merge(pend.pop(b))
            if g is FALSE or g is BOT:
                continue
            if b in body.loops and not (start and b == entry and nodes is not None):
                for tgt, lst in self.loop(body, fr, b, g, s).items():
                    for ge, se in lst:
                        self.route(pend, exits, nodes, entry, tgt, ge, se)
                start = False
                continue
            start = False
            for tgt, ge, se in self.block(body, fr, b, g, s):
                self.route(pend, exits, nodes, entry, tgt, ge, se)
        return exits

    def route(self, pend, exits, nodes, entry, tgt, g, s):
        if g is FALSE or g is BOT:
            return
        if tgt == "RET":
            exits.setdefault("RET", []).append((g, s))
        elif nodes is not None and (tgt not in nodes or tgt == entry):
            exits.setdefault(tgt, []).append((g, s))
        else:
            pend.setdefault(tgt, []).append((g, s))

    def block(self, body, fr, b, g, st):
        self.steps += 1
        if self.steps > 3000000:
            raise Limit("steps")
        blk = body.blocks[b]
        st = dict(st)
        self.gstack[-1] = g
        for pl, rv in blk["s"]:
            if rv["k"] == "setdiscr":
                loc = self.place(fr, st, pl)
                old = self.rd(st, loc)
                if old.op == "agg":
                    self.write(st, loc, agg(old.a[0], rv["v"], old.a[2], *old.a[3:]))
                continue
            v = self.rvalue(body, fr, st, rv)
            if v is BOT:
                # unreachable value: keep going, joins drop it
                pass
            self.blurred = ()
            loc = self.place(fr, st, pl)
            self.write(st, loc, v)
            for c in self.blurred:
                self.smudge(st, c, True)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], g, st)]
        if k == "return":
            return [("RET", g, st)]
        if k == "switch":
            return self.switch(body, fr, g, st, t)
        if k == "assert" and t["msg"] == "other":
            return [(t["t"], g, st)]         # checks on raw pointers made by the compiler
        if k == "assert":
            c = self.operand(fr, st, t["o"])
            cond = asguard(c) if c is not BOT else FALSE
            if not t["exp"]:
                cond = g_not(cond)
            bad = g_not(cond)
            if bad is not FALSE and bad is not BOT:
                gb = g_and(g, bad)
                if gb is not FALSE:
                    self.gstack[-1] = gb
                    self.event("panic", "assert:" + t["msg"], [guardbool(bad)], t.get("span"))
                    self.gstack[-1] = g
            return [(t["t"], g, st)]
        if k == "call":
            return self.callterm(body, fr, g, st, t)
        return []

    def switch(self, body, fr, g, st, t):
        d = self.operand(fr, st, t["o"])
        if d is BOT:
            return []
        out = []
        rest = g
        signed = t["ty"].startswith("i")
        bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}.get(t["ty"], 0)
        taken = FALSE
        for val, tgt in t["ts"]:
            n = int(val)
            if bits and n >= 1 << (bits - 1):
                n -= 1 << bits
            c = self.testval(d, n, t["ty"])
            out.append((tgt, g_and(g, c), st))
            taken = g_or(taken, c)
        els = g_and(g, g_not(taken))
        out.append((t["else"], els, st))
        # several edges to one block are merged by the caller
        return [(a, b, dict(c)) for a, b, c in out if b is not FALSE and b is not BOT]

    def testval(self, d, n, ty):
        """Guard: integer/discriminant term d equals n."""
        memo = {}

        def leaf(x):
            if x.op == "int":
                return TRUE if x.a[0] == n else FALSE
            if x.op == "discr":
                vs = self.adtvars.get(x.a[0], {})
                want = vs.get(str(n))
                if want is None and n < 0:
                    want = vs.get(str(n + 256)) or vs.get(str(n + (1 << 64))) or vs.get(str(n + (1 << 128)))
                labels = list(vs.values())
                if not labels:
                    return asguard(t_eq(x, I(n)))
                return rawcase(x.a[1], [(l, TRUE if l == want else FALSE) for l in labels])
            if ty == "bool" or x.op in BOOL_OPS:
                gg = asguard(x)
                return gg if n == 1 else g_not(gg)
            return asguard(t_eq(x, I(n)))

        def go(x):
            if x is BOT:
                return BOT
            if x.op != "case":
                return leaf(x)
            r = memo.get(x)
            if r is None:
                r = rawcase(x.a[0], [(l, go(v)) for l, v in x.a[1]])
                memo[x] = r
            return r
        return go(d)

    # ------------------------------------------------------------ loops
    def loop(self, body, fr, header, guard, st):
        ev00, uid00 = len(self.events), self.uid
        r = None if header in [h for h, _ in self.folded] else self.unroll(body, fr, header, guard, st)
        if r is not None:
            if any(v.size > 300000 and st.get(c) is not v for l in r.values() for _, s in l for c, v in s.items()):
                # written out it is too large; perhaps it can be summarised
                kept, uid1 = self.events[ev00:], self.uid
                del self.events[ev00:]
                self.uid = uid00
                xs = {x.a[0] for l in r.values() for _, s in l for c, v in s.items() if v.size > 300000 and st.get(c) is not v
                      for x in subterms(v) if x.op == "index" and x.a[1].op == "int" and known_len(x.a[0])}
                self.folded.append((header, sorted(xs, key=lambda x: x.id)))
                try:
                    r2 = self.loop(body, fr, header, guard, st)
                finally:
                    self.folded.pop()
                if not any(lossy(v) and not lossy(st.get(c, UNIT)) for l in r2.values() for _, s in l for c, v in s.items()):
                    return r2
                del self.events[ev00:]
                self.events.extend(kept)
                self.uid = uid1
            return r
        nodes = body.loops[header]
        pre = set(st.keys())
        ev0 = len(self.events)
        uid0 = self.uid
        ctx = {"pre": pre, "it": None, "cell": None, "space": None, "key": None}
        mods = {}
        last = None
        for rnd in range(12):
            del self.events[ev0:]
            ctx = {"pre": pre, "it": None, "cell": None, "space": None, "key": None, "body": body}
            self.loopctx.append(ctx)
            self.ctx.append(("loop", body.id, header))
            st1 = dict(st)
            self.install(st1, mods)
            try:
                exits = self.region(body, fr, header, nodes, TRUE, st1)
            finally:
                self.loopctx.pop()
                self.ctx.pop()
            if ctx.get("fork") and nleaves(ctx["fork"][2], 6) <= 6:
                # one loop per form of the sequence
                del self.events[ev0:]
                cell, path, s = ctx["fork"]
                res, top_ = {}, uid0
                for g, leaf in guards_of(s):
                    if leaf is BOT or g_and(guard, g) is FALSE:
                        continue
                    self.uid = uid0
                    st2 = dict(st)
                    self.write(st2, ("loc", cell, path), leaf)
                    self.gstack.append(asguard(g))
                    try:
                        r = self.loop(body, fr, header, g_and(guard, asguard(g)), st2)
                    finally:
                        self.gstack.pop()
                    top_ = max(top_, self.uid)
                    for t, l in r.items():
                        res.setdefault(t, []).extend(l)
                self.uid = top_
                return res
            back = exits.pop(header, [])
            if not back:
                # body never repeats
                return {t: [(g_and(guard, g), s) for g, s in l] for t, l in exits.items()}
            gb, sb = self.merge(back)
            new = self.changed(st, st1, sb, mods, pre, ctx)
            if not new:
                last = (exits, gb, sb, st1)
                break
            mods.update(new)
        if last is None:
            raise Limit("loop")
        exits, gb, sb, st1 = last
        b = ctx["space"]
        if b is None:
            r = self.counter_loop(body, fr, header, guard, st, mods, exits, gb, sb) or self.grow_loop(guard, mods, exits, gb, sb) \
                or self.retry_loop(guard, mods, exits, sb, uid0)
            if r is not None:
                return r
            # not an iteration over a sequence: values changed in the loop are unknown
            m = {}
            for key, (acc, init) in mods.items():
                m[acc] = unk("loop")
            res = {}
            for t, l in exits.items():
                out = []
                for g, s in l:
                    s2 = {c: subst(v, m) for c, v in s.items()}
                    out.append((g_and(guard, asguard_any(subst(g, m))), s2))
                res[t] = out
            return res
        hn = mk("hasnext", ctx["it"])
        gb = cofg(gb, hn, "1")
        # early exits
        early, normal = {}, {}
        gall = FALSE
        for t, l in exits.items():
            for g, s in l:
                g0 = cofg(g, hn, "0")
                g1 = cofg(g, hn, "1")
                if g0 is not FALSE and g0 is not BOT:
                    normal.setdefault(t, []).append((g0, s))
                if g1 is not FALSE and g1 is not BOT:
                    early.setdefault(t, []).append((g1, s))
                    gall = g_or(gall, g1)
        fin = self.finish(b, st, sb, mods, hn)
        pres = self.pres
        if not self.force and any(lossy(x) for x in fin.values()) and known_len(b) is not None and known_len(b) <= 64:
            kept = self.events[ev0:]
            del self.events[ev0:]
            self.force = True
            try:
                r = self.unroll(body, fr, header, guard, st)
            finally:
                self.force = False
            if r is not None:
                return r
            self.events.extend(kept)
        self.settle(ev0, b, mods, fin, pres, hn)
        res = {}
        anyg = FALSE
        # where a loop is left early, its accumulators hold the fold over the elements before that one
        if mods and early:
            from .seqs import t_pre
            mp = {acc: pres.get(acc) or t_pre(b, fin[key]) for key, (acc, init) in mods.items() if not lossy(fin[key])}
            memo1 = {}
            early = {t: [(asguard_any(subst(g, mp)), {c: subst(v, mp, memo1) for c, v in s.items()}) for g, s in l] for t, l in early.items()}
            gall = asguard_any(subst(gall, mp))
        gallb = guardbool(gall)
        if gall is not FALSE:
            anyg = asguard(self.mkany(b, gallb))
        m = {acc: fin[key] for key, (acc, init) in mods.items()}
        if hn is not None:
            m = dict(m)
        for t, l in normal.items():
            for g, s in l:
                s2 = {}
                memo = {}
                for c, v in s.items():
                    v = cofv(v, hn, "0")
                    s2[c] = subst(v, m, memo) if mods else v
                for key, (acc, init) in mods.items():
                    pass
                self.writeback(s2, sb, ctx["it"], b, hn)
                gg = g_and(guard, g_not(anyg))
                gg = g_and(gg, asguard_any(subst(g, m)) if mods else g)
                res.setdefault(t, []).append((gg, s2))
        nearly = sum(len(l) for l in early.values())
        for t, l in early.items():
            for g, s in l:
                s2 = {}
                for c, v in s.items():
                    v = cofv(v, hn, "1")
                    if st.get(c) is not v and mentions(v, b, mods):
                        s2[c] = self.mkfirst(b, gallb, v)
                    else:
                        s2[c] = v
                gg = g_and(guard, anyg)
                if nearly > 1:
                    gg = g_and(gg, asguard(self.mkfirst(b, gallb, guardbool(g))))
                res.setdefault(t, []).append((gg, s2))
        return res

    def positions(self, lo, hi):
        """lo..hi, as the positions of an array of that length which the loop indexes"""
        if lo is FALSE and hi.op == "int" and self.folded:
            for x in self.folded[-1][1]:
                if known_len(x) == hi.a[0]:
                    return rangeseq(FALSE, mk("len", x))
        return rangeseq(lo, hi)

    def counter_loop(self, body, fr, header, guard, st, mods, exits, gb, sb):
        """`while i < n { ...; i += 1 }` is an iteration over i0..n."""
        cands = []
        for key, (acc, init) in mods.items():
            step = self.read(sb, key[0], key[1])
            if step is add(acc, I(1)) and not contains(init, lambda x: x.op == "acc"):
                cands.append((key, acc, init))
        hits = []
        for x in subterms(gb):
            if x.op == "lt" and any(x.a[0] is c[1] for c in cands):
                hits.append((x, True))
            elif x.op == "eq" and any(c[1] in x.a for c in cands):
                hits.append((x, False))
        for cond, islt in hits:
            key, acc, init = [c for c in cands if c[1] in cond.a][0]
            n = cond.a[1] if cond.a[0] is acc else cond.a[0]
            if contains(n, lambda x: x.op == "acc"):
                continue
            if not islt and init is not FALSE:
                continue
            from .models import toseq
            s = self.positions(init, n)
            m = {acc: elem(s)}
            hn = mk("hasnext", s)
            m2 = dict(m)
            yes, no = ("1", "0") if islt else ("0", "1")

            def conv(v):
                # the loop condition becomes "has another element"
                def go(v):
                    return subst(v, m)
                return go(v)
            cond2 = conv(cond)
            mods2 = {k: v for k, v in mods.items() if k != key}
            b = ispace(s)
            # values on the way back and out
            sb2 = {c: conv(cofv(v, cond, yes)) for c, v in sb.items()}
            fin = self.finish(b, st, sb2, mods2)
            mm = {a: fin[k] for k, (a, i) in mods2.items()}
            mm[acc] = n if islt or True else n
            res = {}
            early = []
            for t, l in exits.items():
                for g, se in l:
                    g0 = cofg(g, cond, no)
                    g1 = cofg(g, cond, yes)
                    if g1 is not FALSE and g1 is not BOT:
                        early.append((t, conv_g(g1, m), {c: conv(cofv(v, cond, yes)) for c, v in se.items()}))
                    if g0 is not FALSE and g0 is not BOT:
                        s2 = {c: subst(cofv(v, cond, no), mm) for c, v in se.items()}
                        res.setdefault(t, []).append((asguard_any(subst(g0, mm)), s2))
            gall = FALSE
            for t, g, se in early:
                gall = g_or(gall, g)
            gallb = guardbool(gall)
            anyg = asguard(self.mkany(b, gallb)) if gall is not FALSE else FALSE
            out = {t: [(g_and(g_and(guard, g_not(anyg)), g), s2) for g, s2 in l] for t, l in res.items()}
            for t, g, se in early:
                s2 = {}
                for c, v in se.items():
                    s2[c] = self.mkfirst(b, gallb, v) if st.get(c) is not v and mentions(v, b, mods) else v
                gg = g_and(guard, anyg)
                if len(early) > 1:
                    gg = g_and(gg, asguard(self.mkfirst(b, gallb, guardbool(g))))
                out.setdefault(t, []).append((gg, s2))
            # the condition may have been inspected in the events of the body
            return out
        return None

    def grow_loop(self, guard, mods, exits, gb, sb):
        """`while v.len() < n { v.push(x) }` pads v with fresh x up to n elements."""
        if len(mods) != 1:
            return None
        (key, (acc, init)), = mods.items()
        step = self.read(sb, key[0], key[1])
        has = lambda x: contains(x, lambda y: y is acc)
        if not (step.op == "concat" and len(step.a) == 2 and step.a[0] is acc and is_arr(step.a[1]) and len(step.a[1].a) == 4) or has(step.a[1]) or has(init):
            return None
        ln, neg_ = length(acc), set()

        class No(Exception):
            pass

        def bound(g):
            if g is FALSE or g is BOT:
                return I(0)
            if g.op != "case":
                raise No()
            s, d = g.a[0], dict(g.a[1])
            if s.op == "lt" and s.a[0] is ln and not has(s.a[1]) and d.get("1") is TRUE and d.get("0") is FALSE:
                return s.a[1]
            if has(s):
                raise No()
            return case(s, [(l, bound(v)) for l, v in g.a[1]])
        try:
            n = bound(gb)
        except No:
            return None
        from .arith import t_max
        fin = map_leaves(t_max(length(init), n), lambda k: init if k is length(init) else take(concat(init, mk("repeatw", step.a[1].a[3], UNIT)), k))
        m, stop = {acc: fin}, g_not(gb)
        res = {}
        for t, l in exits.items():
            if len(l) != 1 or len(exits) != 1 or g_and(l[0][0], stop) is not stop:
                return None
            res[t] = [(guard, {c: subst(v, m) for c, v in l[0][1].items()})]
        return res

    def retry_loop(self, guard, mods, exits, sb, uid0):
        """`let mut x = draw(); while bad(x) { x = draw() }`: at the end x is a draw for which the loop is left."""
        m = {}
        for key, (acc, init) in mods.items():
            step = self.read(sb, key[0], key[1])
            if contains(init, lambda y: y is acc) or not redrawn(init, step, uid0, {}):
                return None
            m[acc] = init
        if not m:
            return None
        return {t: [(g_and(guard, asguard_any(subst(g, m))), {c: subst(v, m) for c, v in s.items()}) for g, s in l] for t, l in exits.items()}

    def unroll(self, body, fr, header, guard, st):
        """Loops over literal sequences (and loops whose conditions are constants) are expanded."""
        nodes = body.loops[header]
        ev0 = len(self.events)
        uid0 = self.uid
        res = {}
        g, s = guard, st
        for k in range(600):
            ctx = {"pre": set(s.keys()), "it": None, "cell": None, "space": None, "key": None, "body": body, "concrete": True, "popped": 0, "sym": False}
            self.loopctx.append(ctx)
            try:
                exits = self.region(body, fr, header, nodes, g, s)
            finally:
                self.loopctx.pop()
            back = exits.pop(header, [])
            ok = not ctx["sym"]
            if ok and back and not ctx["popped"]:
                ok = all(x is guard for x, _ in back) and not exits and k < 70
            if not ok:
                del self.events[ev0:]
                self.uid = uid0
                return None
            for t, l in exits.items():
                res.setdefault(t, []).extend(l)
            if not back:
                return res
            g, s = self.merge(back)
            if g is FALSE or g is BOT:
                return res
        del self.events[ev0:]
        self.uid = uid0
        return None

    def mkany(self, b, g):
        if g is FALSE:
            return FALSE
        return mk("any", b, g)

    def mkfirst(self, b, g, v):
        """v at the first element of b where g holds (distributed over constructors)."""
        if v.op == "case":
            # only the outcomes possible where g holds
            v = restrict(v, asguard(g))
            if v.op == "case":
                ls = {(l.a[:3] if l.op == "agg" and not is_arr(l) and not l.a[0].startswith("closure") else None) for _, l in guards_of(v) if l is not BOT}
                if len(ls) == 1 and None not in ls:
                    h = next(iter(ls))
                    return agg(*h, *[self.mkfirst(b, g, _fld(_as(v, h[1]), n)) for n in h[2]])
        if v.op == "agg":
            return agg(v.a[0], v.a[1], v.a[2], *[self.mkfirst(b, g, x) for x in v.a[3:]])
        if not mentions_any(v, b):
            return v
        return mk("first", b, g, v)

    def itermuts(self, s):
        out = []
        if s is None:
            return out
        if contains_ref(s):
            for x in subterms(s):
                if x.op == "ref" and x.a[0] in self.itm and x.a[0] not in out:
                    out.append(x.a[0])
        return out

    def writeback(self, s2, sb, it, b, hn=None):
        for tmp in self.itermuts(it):
            cell, path, space = self.itm[tmp]
            nv = sb.get(tmp, BOT)
            if hn is not None:
                nv = cofv(nv, hn, "1")
            self.write(s2, ("loc", cell, path), self.rebase(space, nv, b))

    def rebase(self, space, v, b):
        """What a loop over b (several sequences side by side) leaves in each element of one of them."""
        if b is not None and b.op == "zip" and space in b.a and v is not BOT:
            short = []
            m = {}
            for q in b.a:
                if q is space or not contains(v, lambda x: x.op in ("elem", "idx") and x.a[0] is q):
                    if q is space or q.op == "repeatw":
                        continue
                n, k = length(q), length(space)
                if n is not k:
                    e = t_lt(idx(space), n)
                    if e is not TRUE:
                        short.append(e)
                elif v is elem(q):
                    return q
                m[mk("elem", q)] = index(q, idx(space))
                m[mk("idx", q)] = idx(space)
            v = subst(v, m)
            for e in short:
                v = case(e, [("1", v), ("0", elem(space))])
            return smap(space, v)
        if b is None or b is space or v is BOT:
            return smap(space, v)
        # part of the elements, or all in another order
        chain, q = [], b
        while q is not space and q.op in ("map", "take", "slice", "skip", "rev", "filt"):
            if q.op != "map":
                chain.append(q)
            q = q.a[0]
        if q is not space:
            return smap(space, unk("iter_mut"))
        i, off, conds, free = idx(space), I(0), [], True
        for q in reversed(chain):
            if not free and q.op != "rev":
                return smap(space, unk("iter_mut"))
            if q.op == "take":
                conds.append(t_lt(i, t_add(off, q.a[1])))
            elif q.op in ("slice", "skip"):
                conds.append(b_not(t_lt(i, t_add(off, q.a[1]))))
                if q.op == "slice" and q.a[2].op != "end":
                    conds.append(t_lt(i, t_add(off, q.a[2])))
                off = t_add(off, q.a[1])
            elif q.op == "filt":
                conds.append(guardbool(q.a[1]))
                free = False
            else:
                free = False
        if any(contains(v, lambda x: x.op in ("elem", "idx") and x.a[0] is q) for q in chain + [b]):
            if not free:
                return smap(space, unk("iter_mut"))
            v = subst(v, {mk("idx", q): t_sub(i, off) for q in (b, chain[0])})
            if any(contains(v, lambda x: x.op in ("elem", "idx") and x.a[0] is q) for q in chain + [b]):
                return smap(space, unk("iter_mut"))
        for e in conds:
            v = case(e, [("1", v), ("0", elem(space))]) if e not in (TRUE, FALSE) else v if e is TRUE else elem(space)
        return smap(space, v)

    def install(self, st1, mods):
        for (c, path), (acc, init) in mods.items():
            st1[c] = self.setp(st1[c], path, acc) if path else acc

    def changed(self, st0, st1, sb, mods, pre, ctx):
        """Leaf places of pre-existing cells whose value after one iteration differs."""
        new = {}
        itcell = ctx.get("cell")
        for c in pre:
            if c == itcell or c in self.itm:
                continue
            a, z = st1.get(c), sb.get(c)
            if a is z or z is None:
                continue
            for path in self.diff(a, z, ()):
                # already tracked by an accumulator at or above this path?
                if any(k[0] == c and path[:len(k[1])] == k[1] for k in mods):
                    continue
                if any(k[0] == c and path[:len(k[1])] == k[1] for k in new):
                    continue
                init = self.read(st0, c, path)
                acc = mk("acc", c, path)
                new[(c, path)] = (acc, init)
        # drop accumulators nested below a new one
        return new

    def diff(self, a, z, path):
        if a is z:
            return []
        if a.op == "agg" and z.op == "agg" and a.a[:3] == z.a[:3] and not is_arr(a):
            out = []
            for n, x, y in zip(a.a[2], a.a[3:], z.a[3:]):
                out.extend(self.diff(x, y, path + (("f", n),)))
            return out
        return [path]

    def finish(self, b, st0, sb, mods, hn=None):
        """Loop-carried places -> fold terms, one per place."""
        steps = {}
        for key, (acc, init) in mods.items():
            v = self.read(sb, key[0], key[1])
            if hn is not None:
                v = cofv(v, hn, "1")
            steps[key] = v
        accs = {acc: key for key, (acc, init) in mods.items()}
        # a sequence whose elements are only overwritten keeps its length
        same = {}
        for key, (acc, init) in mods.items():
            n = mk("len", acc)
            if any(contains(x, lambda q: q is n) for x in steps.values()) and all(length(x) is n for x in leaves(steps[key]) if x is not BOT):
                same[n] = length(init)
        if same:
            steps = {k: subst(v, same) for k, v in steps.items()}
        fin, self.pres = {}, {}
        from .seqs import t_pre
        left = dict(mods)
        opaque_ = set()
        while left:
            # one that depends on no other undetermined one; its value so far is what the others see
            done = False
            for key, (acc, init) in left.items():
                if any(a is not acc and (accs[a] in left or a in opaque_) and contains(steps[key], a) for a in accs):
                    continue
                fin[key] = self.mkfold(b, init, steps[key], acc)
                sh = shifted(init, steps[key], acc, idx(b))
                if sh is None and fin[key].op == "last" and any(contains(steps[k], acc) for k in left if k != key) \
                        and not contains(steps[key], lambda x: x.op in ("acc", "accn", "rand", "unk", "hasnext")):
                    # what the step before this one left
                    sh = case(t_eq(I(0), idx(b)), [("0", index(smap(b, steps[key]), t_sub(idx(b), I(1)))), ("1", init)])
                self.pres[acc] = sh if sh is not None else t_pre(b, fin[key])
                done = True
                del left[key]
                if lossy(fin[key]) and sh is None:
                    opaque_.add(acc)
                elif any(contains(steps[k], acc) for k in left):
                    m = {acc: self.pres[acc]}
                    for k in left:
                        steps[k] = subst(steps[k], m)
                break
            if not done:
                break
        for key, (acc, init) in left.items():
            others = [a for a in accs if a is not acc and contains(steps[key], a)]
            sysm = {a: mk("accn", b, i) for i, a in enumerate(sorted([acc] + others, key=lambda t: t.id))}
            fin[key] = mk("foldsys", b, subst(init, {}), subst(steps[key], sysm))
        return {key: fin[key] for key in mods}      # written back in this order: an outer place after its parts

    def settle(self, ev0, b, mods, fin, pres={}, hn=None):
        """In the path conditions of the panics inside a loop, what it carries along is given by the elements before."""
        if not (mods or hn is not None) or not any(e.kind == "panic" for e in self.events[ev0:]):
            return
        from .seqs import t_pre
        lens, vals = {}, {}
        for key, (acc, init) in mods.items():
            if length(fin[key]) is length(init):
                lens[mk("len", acc)] = length(init)
            if not lossy(fin[key]):
                vals[acc] = pres.get(acc) or t_pre(b, fin[key])
        memos = {}, {}
        for e in self.events[ev0:]:
            if e.kind == "panic":
                e.guards = tuple(asguard_any(subst(subst(g, lens, memos[0]), vals, memos[1])) if g is not TRUE else g for g in e.guards)
                if hn is not None and any(contains(g, hn) for g in e.guards):
                    at1 = tuple(cofg(g, hn, "1") for g in e.guards)
                    if any(cofg(g, hn, "0") is FALSE for g in e.guards):    # only within an iteration
                        e.guards = at1

    def mkfold(self, b, init, step, acc):
        if step is acc:
            return init
        if step is BOT:
            return init
        if step.op == "ref" or acc is None:
            return step
        r = shifted(init, step, acc, length(b))
        if r is not None:
            return r
        if not contains(step, acc):
            if not mentions_any(step, b):
                return case(asguard(t_eq(length(b), I(0))).a[0], [("1", init), ("0", step)]) if length(b).op != "int" else step
            return mk("last", b, init, step)
        # push-style accumulation
        if step.op == "concat" and step.a[0] is acc and not any(contains(x, acc) for x in step.a[1:]):
            rest = step.a[1:]
            if len(rest) == 1 and is_arr(rest[0]) and len(rest[0].a) == 4:
                return concat(init, smap(b, rest[0].a[3]))
            return concat(init, mk("flat", b, concat(*rest)))
        if step.op == "case":
            # conditional push
            lv = [(g, l) for g, l in guards_of(step)]
            pushes = [(g, l) for g, l in lv if l is not acc]
            if len(pushes) == 1:
                g, l = pushes[0]
                if l.op == "concat" and l.a[0] is acc and len(l.a) == 2 and is_arr(l.a[1]) and len(l.a[1].a) == 4 and not contains(l.a[1], acc) and not contains(g, acc):
                    return concat(init, mk("filt", b, guardbool(g), l.a[1].a[3]))
            # sticky None / Err accumulators
            r = self.sticky(b, init, step, acc)
            if r is not None:
                return r
        if step.op == "add" and acc in step.a:
            rest = list(step.a)
            rest.remove(acc)
            if not any(contains(x, acc) for x in rest):
                return add(init, bigsum(b, add(*rest)))
        if step.op == "case" and init in (TRUE, FALSE) and all(l is acc or l in (TRUE, FALSE, BOT) or l.op in BOOL_OPS for _, l in guards_of(step)):
            # a boolean that is only ever cleared, or only ever set
            s0, s1 = (subst(step, {acc: v}) for v in (FALSE, TRUE))
            if s0 is FALSE and not contains(s1, acc):
                g = self.mkany(b, b_not(s1))
                return b_not(g) if init is TRUE else FALSE
            if s1 is TRUE and not contains(s0, acc):
                return self.mkany(b, s0) if init is FALSE else TRUE
        if step.op == "case":
            def strip(l):
                if l is acc:
                    return I(0)
                if l.op == "add" and list(l.a).count(acc) == 1:
                    rest = list(l.a)
                    rest.remove(acc)
                    if not any(contains(x, acc) for x in rest):
                        return add(*rest)
                return acc
            body = map_leaves(step, strip)
            if not contains(body, acc):
                return add(init, bigsum(b, body))
        if step.op in ("case", "skip"):
            def taken(l):
                if l is acc:
                    return I(0)
                if l.op == "skip" and l.a[0] is acc:
                    return l.a[1]
                return acc
            body = map_leaves(step, taken)
            if not contains(body, acc):
                return t_skip(init, bigsum(b, body))
        if step.op == "absorb" and step.a[0] is acc and not any(contains(x, acc) for x in step.a[1:]):
            return absorb(init, *each_in_turn(b, step.a[1:]))
        a2, leaves = self.splitacc(acc, init)
        if a2.op == "agg" and leaves and a2 is not acc and step.op == "agg" and step.a[:3] == init.a[:3] and not any(l is acc for l in leaves):
            m = {}
            self.accproj(acc, a2, m)
            st2 = subst(step, m)
            if not contains(st2, acc):
                return self.foldtree(b, init, st2, a2)
        if step.op == "agg" and init.op in ("sym", "fld", "as") and len(step.a) > 4 and step.a[0] not in (OPTION, RESULT, "array") and not step.a[0].startswith("closure") \
                and any(x is mk("fld", acc, n) for n, x in zip(step.a[2], step.a[3:])):
            # an accumulator of which some fields are only passed along: fold the others
            whole = agg(step.a[0], step.a[1], step.a[2], *[_fld(init, n) for n in step.a[2]])
            a2, leaves = self.splitacc(acc, whole)
            m = {}
            self.accproj(acc, a2, m)
            m.update({mk("fld", acc, n): _fld(init, n) for n, x in zip(step.a[2], step.a[3:]) if x is mk("fld", acc, n)})
            st2 = subst(step, m)
            if not contains(st2, acc) and a2.op == "agg":
                st2 = agg(*(st2.a[:3] + tuple(p if x is mk("fld", acc, n) else v for n, x, v, p in zip(step.a[2], step.a[3:], st2.a[3:], a2.a[3:]))))
                r = self.foldtree(b, whole, st2, a2)
                if r.op != "foldsys":
                    return r
        canon = mk("accv", b)
        return mk("fold", b, init, subst(step, {acc: canon}))

    def sticky(self, b, init, step, acc):
        for okl, bad in (("Some", "None"), ("Ok", "Err")):
            if step.op != "case" or not tests(step, acc, (okl, bad)):
                continue
            if init.op == "case" and nleaves(init, 6) <= 6 \
                    and all(is_agg(l, None, okl) or is_agg(l, None, bad) for _, l in guards_of(init)):
                return map_leaves(init, lambda l: self.mkfold(b, l, step, acc))
            if is_agg(init, None, bad):
                badv = cofv(step, acc, bad)
                if badv is BOT or badv is acc or subst(badv, {acc: init}) is init or (bad == "None" and badv is init):
                    return init
                if bad == "Err" and is_agg(badv, None, bad) and agg_get(badv, "0") is mk("fld", mk("as", acc, bad), "0"):
                    return init
                return None
            if is_agg(init, None, okl):
                badv = cofv(step, acc, bad)
                if badv is BOT:
                    badv = acc
                if badv is not BOT and not (is_agg(badv, None, bad) or badv is acc):
                    return None
                pay = mk("fld", mk("as", acc, okl), "0")
                okv = cofv(step, acc, okl)
                if step.a[0] is not acc:
                    okv = map_leaves(okv, lambda l: agg(init.a[0], okl, ("0",), pay) if l is acc else l)
                if contains_except(okv, acc, pay):
                    return None
                init0 = agg_get(init, "0")
                a2, leaves = self.splitacc(acc, init0)
                okv = subst(okv, {pay: a2})
                g = self.isvar(okv, bad)
                inner = self.foldtree(b, init0, self.payload(okv, okl), a2)
                m = self.prefixes(b, inner, a2)
                gany = self.mkany(b, subst(guardbool(g), m))
                kind = init.a[0]
                badr = NONE if bad == "None" else err(self.mkfirst(b, subst(guardbool(g), m), subst(self.payload(okv, bad), m)))
                return ite(asguard(gany), badr, agg(kind, okl, ("0",), inner))
        return None

    def prefixes(self, b, whole, a2):
        """Accumulators as the fold so far: pre(b, f) is the fold f over the elements before the current one."""
        if a2.op == "agg":
            m = {}
            for n, x in zip(a2.a[2], a2.a[3:]):
                m.update(self.prefixes(b, _fld(whole, n), x))
            return m
        return {a2: t_pre(b, whole)}

    def splitacc(self, acc, init, path=()):
        """Accumulator shaped like the initial value: one leaf accumulator per field."""
        if init.op == "agg" and init.a[0] not in ("array",) and not init.a[0].startswith("closure") and init.a[0] not in (OPTION, RESULT) and len(init.a) > 3:
            vals, leaves = [], []
            for n, x in zip(init.a[2], init.a[3:]):
                v, l = self.splitacc(acc, x, path + (n,))
                vals.append(v)
                leaves += l
            return agg(init.a[0], init.a[1], init.a[2], *vals), leaves
        a = mk("acc", -1, ("s", acc.id) + path)
        return a, [a]

    def accproj(self, t, a2, m):
        if a2.op == "agg":
            for n, x in zip(a2.a[2], a2.a[3:]):
                self.accproj(mk("fld", t, n), x, m)
        else:
            m[t] = a2

    def foldtree(self, b, init, step, a2):
        """Fold of a (possibly structured) accumulator a2 as built by splitacc."""
        if a2.op == "agg":
            if step.op == "agg" and step.a[:3] == a2.a[:3]:
                leaves = [x for x in subterms(a2) if x.op == "acc"]
                out = []
                for n, i0, s0, x in zip(a2.a[2], init.a[3:], step.a[3:], a2.a[3:]):
                    mine = [y for y in subterms(x) if y.op == "acc"]
                    if any(contains(s0, l) for l in leaves if l not in mine):
                        m = {l: mk("accn", b, i) for i, l in enumerate(leaves)}
                        return mk("foldsys", b, init, subst(step, m))
                    out.append(self.foldtree(b, i0, s0, x))
                return agg(a2.a[0], a2.a[1], a2.a[2], *out)
            leaves = [x for x in subterms(a2) if x.op == "acc"]
            m = {l: mk("accn", b, i) for i, l in enumerate(leaves)}
            return mk("foldsys", b, init, subst(step, m))
        return self.mkfold(b, init, step, a2)

    def isvar(self, v, label):
        """Guard: enum value v is variant `label`."""
        memo = {}

        def go(x):
            if x is BOT:
                return BOT
            if x.op == "agg":
                return TRUE if x.a[1] == label else FALSE
            if x.op == "case":
                r = memo.get(x)
                if r is None:
                    r = rawcase(x.a[0], [(l, go(v)) for l, v in x.a[1]])
                    memo[x] = r
                return r
            two = {"Some": ("None", "Some"), "None": ("None", "Some"), "Ok": ("Ok", "Err"), "Err": ("Ok", "Err")}[label]
            return rawcase(x, [(l, TRUE if l == label else FALSE) for l in two])
        return go(v)

    def payload(self, v, label):
        return self.proj(self.proj(v, ("v", label)), ("f", "0"))

    def each(self, st, s, f):
        """Applies f(st, elem) once per element; returns (list of results | ('body', space, value)), st."""
        if s.op == "case":
            # distribute over alternatives
            parts = []
            for g, leaf in guards_of(s):
                r, st2 = self.each(dict(st), leaf, f)
                parts.append((g, r, st2))
            if len(parts) == 1:
                return parts[0][1], parts[0][2]
            val = BOT
            for g, r, _ in parts:
                val = ite(g, self.seqof(r), val)
            _, so = self.merge([(g, x) for g, _, x in parts])
            return ("seq", val), so
        if is_arr(s) and len(s.a) - 3 <= 64:
            out = []
            for x in s.a[3:]:
                v, st = f(st, x)
                if v is BOT:
                    return ("bot",), st
                out.append(v)
            return ("list", out), st
        if s.op == "concat":
            val = arr()
            for part in s.a:
                r, st = self.each(st, part, f)
                val = lift(concat, val, self.seqof(r))
            return ("seq", val), st
        if s.op == "range" and s.a[0].op == "int" and s.a[1].op == "int" and s.a[1].a[0] - s.a[0].a[0] <= 16:
            return self.each(st, arr(*[I(i) for i in range(s.a[0].a[0], s.a[1].a[0])]), f)
        b = ispace(s)
        e = elem(s)
        pre = set(st.keys())
        mods = {}
        ev0 = len(self.events)
        self.ctx.append(("each", b))
        self.eachseq.append(s)
        try:
            for rnd in range(12):
                del self.events[ev0:]
                st1 = dict(st)
                self.install(st1, mods)
                v, sb = f(dict(st1), e)
                new = self.changed(st, st1, sb, mods, pre, {})
                if not new:
                    break
                mods.update(new)
            else:
                raise Limit("each")
        finally:
            self.ctx.pop()
            self.eachseq.pop()
        fin = self.finish(b, st, sb, mods)
        if any(lossy(x) for x in fin.values()):
            lit = literalize(s)
            if lit is not None:
                del self.events[ev0:]
                return self.each(st, lit, f)
        pres = self.pres
        self.settle(ev0, b, mods, fin, pres)
        out = dict(st)
        for c, x in sb.items():
            if c not in out:
                out[c] = x
        for key, x in fin.items():
            out[key[0]] = self.setp(out[key[0]], key[1], x) if key[1] else x
        self.writeback(out, sb, s, b)
        if v is BOT:
            return ("bot",), out
        m = {}
        for key, (acc, init) in mods.items():
            if contains(v, acc) and not lossy(fin[key]) and (fin[key].op in ("skip", "bigsum", "add") or acc in pres and pres[acc].op != "pre"):
                m[acc] = pres.get(acc) or t_pre(b, fin[key])
        return ("body", b, subst(v, m) if m else v), out

    def seqof(self, r):
        if r[0] == "list":
            return arr(*r[1])
        if r[0] == "seq":
            return r[1]
        if r[0] == "bot":
            return BOT
        return smap(r[1], r[2])

    # ------------------------------------------------------------ rvalues
    def operand(self, fr, st, o):
        if "p" in o:
            if o["p"] is None:
                return FALSE
            return self.rd(st, self.place(fr, st, o["p"]))
        return self.const(o, st)

    def rvalue(self, body, fr, st, rv):
        k = rv["k"]
        if k == "use":
            return self.operand(fr, st, rv["o"])
        if k == "ref":
            self.blurred = ()
            loc = self.place(fr, st, rv["p"])
            if rv.get("mut") or rv.get("raw"):
                for c in self.blurred:
                    self.smudge(st, c, True)
                if loc[0] == "loc":
                    return mk("ref", loc[1], loc[2])
                if loc[0] == "multi":
                    r = BOT
                    for g, c, pa in loc[1]:
                        r = ite(g, mk("ref", c, pa), r)
                    return r
                c = self.newcell()
                st[c] = loc[1]
                return mk("ref", c, ())
            return self.rd(st, loc)
        if k == "bin":
            return self.binop(rv["op"], self.operand(fr, st, rv["a"]), self.operand(fr, st, rv["b"]), rv["ty"])
        if k == "un":
            a = self.operand(fr, st, rv["a"])
            if rv["op"] == "Not":
                if a is BOT:
                    return BOT
                return b_not(a)
            if rv["op"] == "Neg":
                return neg(a)
            if rv["op"] == "PtrMetadata":
                return length(self.val(st, a))
            return mk("un", rv["op"], a)
        if k == "cast":
            if rv["ck"] == "BoxDerefTransmute" and "p" in rv["o"]:
                loc = self.place(fr, st, rv["o"]["p"])
                if loc[0] == "loc":
                    v = self.rd(st, loc)
                    return v if v.op == "ref" else mk("ref", loc[1], loc[2])
            a = self.operand(fr, st, rv["o"])
            if "closure" in rv and a.op != "agg":
                return agg("closure:%d" % rv["closure"], "", ())
            ck = rv["ck"]
            if "Unsize" in ck:
                m = ARR_LEN.match(peel(rv.get("from", "")))
                if m:
                    v = self.val(st, a)
                    self.learn_len(v, rv["from"])
            if ck.startswith("PointerCoercion") or ck.startswith("PtrToPtr") or ck.startswith("Transmute") or ck.startswith("Subtype"):
                if ck.startswith("Transmute") and rv["ty"] != rv["from"]:
                    return self.cast(a, rv["from"], rv["ty"])
                return a
            return self.cast(a, rv["from"], rv["ty"])
        if k == "discr":
            loc = self.place(fr, st, rv["p"])
            v = self.rd(st, loc)
            if v.op == "ref":
                v = self.val(st, v)
            return self.discr(v, rv["adt"])
        if k == "agg":
            vals = [self.operand(fr, st, o) for o in rv["fs"]]
            kind = rv["kind"]
            if kind == "tuple":
                return tup(*vals) if vals else UNIT
            if kind == "array":
                return arr(*vals)
            if kind == "adt":
                return agg(rv["adt"], rv["variant"], tuple(rv["names"]), *vals)
            if kind == "closure":
                return agg("closure:%d" % rv["inst"], "", tuple(str(i) for i in range(len(vals))), *vals)
            if kind == "rawptr":
                return vals[0]
            return unk("agg")
        if k == "repeat":
            n = rv["n"]
            v = self.operand(fr, st, rv["o"])
            if isinstance(n, int):
                if n <= 8 and v.op == "int":
                    return mk("repeat", v, I(n))
                return mk("repeat", v, I(n))
            return mk("repeat", v, mk("named", str(n)))
        return unk("rvalue")

    def cast(self, a, frm, to):
        if frm == to or a is BOT:
            return a

        def f(x):
            if x.op == "int":
                m = re.match(r"^([iu])(8|16|32|64|128|size)$", to)
                if m:
                    bits = 64 if m.group(2) == "size" else int(m.group(2))
                    n = x.a[0] & ((1 << bits) - 1)
                    if m.group(1) == "i" and n >= 1 << (bits - 1):
                        n -= 1 << bits
                    return I(n)
                return x
            if frm == "bool" and to != "bool":
                return case(x, [("0", I(0)), ("1", I(1))])
            if x.op == "discr":
                return mk("cast", to, x)
            if INTTY.match(frm):
                learn(x, frm)
            if widening(frm, to) or x.op in BOOL_OPS:
                return x
            if to in UBITS:
                b = bound(x)
                if b is not None and b <= 1 << UBITS[to]:
                    return x
            return mk("cast", to, x)
        r = map_leaves(a, f)
        if self.gstack and self.gstack[-1] is not TRUE and any(x.op == "cast" for x in leaves(r)):
            from .ranges import uncast
            r = uncast(r, self.gstack[-1], to)
        return r

    def discr(self, v, adt):
        if v is BOT:
            return BOT
        vs = self.adtvars.get(adt, {})
        inv = {n: d for d, n in vs.items()}

        def f(x):
            if x.op == "agg" and x.a[1] in inv:
                return I(int(inv[x.a[1]]))
            if x.op == "agg" and len(vs) <= 1:
                return I(0)
            return mk("discr", adt, x)
        return map_leaves(v, f)

    def discr_eq(self, a, b):
        """a discriminant compared with a constant, as the selection of the variant"""
        for x, y in ((a, b), (b, a)):
            if x.op == "int" and contains(y, lambda z: z.op == "discr") and all(z.op in ("discr", "int") for z in leaves(y)):
                def f(z):
                    if z.op == "int":
                        return TRUE if z is x else FALSE
                    vs = self.adtvars.get(z.a[0], {})
                    if not vs:
                        return t_eq(z, x)
                    return case(z.a[1], [(n, TRUE if d == str(x.a[0]) else FALSE) for d, n in vs.items()])
                return map_leaves(y, f)
        if all(z.op == "discr" and self.adtvars.get(z.a[0]) for t in (a, b) for z in leaves(t)):
            def two(z, w):
                if z.a[0] != w.a[0]:
                    return t_eq(z, w)
                ns = list(self.adtvars[z.a[0]].values())
                return case(z.a[1], [(n, case(w.a[1], [(m, TRUE if m == n else FALSE) for m in ns])) for n in ns])
            return map_leaves(a, lambda z: map_leaves(b, lambda w: two(z, w)))
        return None

    def binop(self, op, a, b, ty):
        if a is BOT or b is BOT:
            return BOT
        uns = ty.startswith("u")
        if INTTY.match(ty):
            for z in (a,) if op.startswith("Sh") else (a, b):
                if z.op != "case":
                    learn(z, ty)
        if op in ("Add", "AddUnchecked"):
            return t_add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return t_sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return t_mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = self.binop(op[:3], a, b, ty)
            o = t_ovf(ty, v)
            return tup(v, o)
        if op in ("Eq", "Ne"):
            r = self.discr_eq(a, b)
            if r is None:
                r = self.boolnorm(t_eq(a, b), a, b, ty)
            return r if op == "Eq" else b_not(r)
        if op == "Lt":
            return bytelt(a, b, ty)
        if op == "Gt":
            return bytelt(b, a, ty)
        if op == "Le":
            return b_not(bytelt(b, a, ty))
        if op == "Ge":
            return b_not(bytelt(a, b, ty))
        if ty == "bool":
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            if op == "BitXor":
                return b_not(t_eqb(a, b))

        def f(x, y):
            if x.op == "int" and y.op == "int":
                n = {"BitAnd": lambda p, q: p & q, "BitOr": lambda p, q: p | q, "BitXor": lambda p, q: p ^ q,
                     "Shl": lambda p, q: p << q if 0 <= q < 128 else None, "Shr": lambda p, q: p >> q if 0 <= q < 128 else None,
                     "Div": lambda p, q: p // q if q and p >= 0 and q > 0 else None,
                     "Rem": lambda p, q: p % q if q and p >= 0 and q > 0 else None}.get(op)
                if n is not None:
                    r = n(x.a[0], y.a[0])
                    if r is not None:
                        return self.cast(I(r), "i256", ty)
            if op == "Offset":
                return unk("offset")
            if op in ("BitAnd", "BitOr", "BitXor"):
                for p, q in ((x, y), (y, x)):
                    if p is FALSE:
                        return FALSE if op == "BitAnd" else q
                flat = []
                for z in (x, y):
                    flat.extend(z.a[1:] if (z.op == "bit" and z.a[0] == op) else (z,))
                if op == "BitAnd" and len(flat) == 2:
                    for p, q in ((flat[0], flat[1]), (flat[1], flat[0])):
                        if q.op == "int" and q.a[0] > 0 and q.a[0] & (q.a[0] - 1) == 0 and p.op != "int":
                            return case(bitset(p, I(q.a[0].bit_length() - 1)), [("0", FALSE), ("1", q)])
                        if q.op == "bin" and q.a[0] == "Shl" and q.a[1] is TRUE:
                            return case(bitset(p, q.a[2]), [("0", FALSE), ("1", q)])
                flat.sort(key=lambda t: t.id)
                return mk("bit", op, *flat)
            if op in ("Shr", "ShrUnchecked") and uns and y.op == "int" and ty in UBITS and y.a[0] == UBITS[ty] - 1:
                return bitset(x, y)
            if op == "Rem" and uns and y.op == "int" and y.a[0] == 2:
                return bitset(x, FALSE)
            return mk("bin", op.replace("Unchecked", ""), x, y)
        return lift(f, a, b)

    def boolnorm(self, r, a, b, ty):
        if ty != "bool":
            if ty in UBITS:
                return lift(lambda x, y: noneset(x, y, ty), a, b)
            return r

        def f(x, y):
            for p, q in ((x, y), (y, x)):
                if p is TRUE:
                    return q
                if p is FALSE:
                    return b_not(q)
            return t_eq(x, y)
        return lift(f, a, b)

    # ------------------------------------------------------------ calls
    def event(self, kind, name, args, span, val=None, f=None):
        if len(self.events) > 400000:
            raise Limit("events")
        fn = self.callstack[-1].path if self.callstack else ""
        self.events.append(Event(kind, name, args, tuple(g for g in self.gstack if g is not TRUE), span, fn,
                                 tuple(self.ctx), val, f, tuple(b.path for b in self.callstack)))

    def callterm(self, body, fr, g, st, t):
        f = t["f"]
        args = []
        for a in t["a"]:
            v = self.operand(fr, st, a[0])
            args.append((v, a[1], a[2], a[3]))
        if any(a[0] is BOT for a in args) and args:
            return []
        if "ptr" in f:
            fv = self.val(st, self.operand(fr, st, f["ptr"]))
            v, st, g2 = self.callval(fv, args, st, t)
        else:
            if t["t"] is None:
                self.event("panic", cname(f), [self.deep(st, a[0]) for a in args[:2]], t.get("span"), f=f)
                return []
            v, st, g2 = self.call(f, args, st, t)
        if t["t"] is None:
            self.event("panic", "diverge", [], t.get("span"))
            return []
        if g2 is FALSE or v is BOT:
            return []
        st = dict(st)
        self.blurred = ()
        loc = self.place(fr, st, t["d"])
        self.write(st, loc, v)
        for c in self.blurred:
            self.smudge(st, c, True)
        g = g_and(g, g2) if self.keep_guard(g2) else g
        return [(t["t"], g, st)]

    def keep_guard(self, g2):
        return False

    def call(self, f, args, st, t):
        """-> (value, store, guard)"""
        n = cname(f)
        if "trait" in f and f["m"] in ("call", "call_mut", "call_once") and f["trait"].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            fv = self.val(st, args[0][0])
            tupv = args[1][0]
            if tupv.op == "agg" and tupv.a[0] == "tuple":
                rest = [(x, 0, "", 0) for x in tupv.a[3:]]
            elif tupv is UNIT:
                rest = []
            else:
                rest = [(self.proj(tupv, ("f", "0")), 0, "", 0)]
            return self.callval(fv, rest, st, t)
        local = f.get("rcrate") == "orchard"
        args, st = self.hold(args, st)
        if n == "Clone::clone" and local and self.is_derived(f):
            return self.val(st, args[0][0]), st, TRUE
        if not local:
            self.bounds(n, f, args, st, t)
        m = self.models.get(n)
        if m is not None and not (local and not getattr(m, "always", False)):
            r = m(self, st, f, args, t)
            if r is not None:
                v, st2 = r
                return v, st2, TRUE
        if not local:
            r = self.prefix_models(self, n, st, f, args, t)
            if r is not None:
                v, st2 = r
                return v, st2, TRUE
        if "inst" in f:
            b = self.p.bodies.get(f["inst"])
            if b is not None and b not in self.callstack and b.path not in self.opaque:
                a = [x[0] for x in args]
                return self.run(b, a, st)
        return self.opaquecall(f, args, st, t)

    def bounds(self, n, f, args, st, t):
        """the panics of library functions that take an index, a range or two slices of one length"""
        h = self.bounded.get(n)
        if h is None:
            return
        try:
            c = h(self, st, args)
        except (IndexError, TypeError):
            return
        if c is None or c is TRUE:
            return
        g = g_not(asguard(c))
        if g is FALSE or g is BOT:
            return
        self.gstack.append(g)
        self.event("panic", n + " out of bounds", [], t.get("span"))
        self.gstack.pop()

    def hold(self, args, st):
        """Closures that own state they change live in a cell, so that the changes are seen by later calls."""
        out = None
        for i, a in enumerate(args):
            x = a[0]
            if x.op == "agg" and x.a[0].startswith("closure:") and len(x.a) > 3:
                b = self.p.bodies.get(int(x.a[0].split(":")[1]))
                if b is not None and b.argc >= 1 and b.locals[1]["t"].startswith("&mut") and any(v.op != "ref" for v in x.a[3:]):
                    c = self.newcell()
                    st = dict(st)
                    st[c] = x
                    out = out or list(args)
                    out[i] = (self.ref(c),) + tuple(a[1:])
        return (out or args), st

    def is_derived(self, f):
        b = self.p.bodies.get(f.get("inst"))
        if b is None:
            return False
        its = self.p.find(b.path)
        return bool(its) and all(i.get("derived") for i in its)

    def opaquecall(self, f, args, st, t, name=None):
        name = name or oname(f)
        st = dict(st)
        rng = [self.val(st, a[0]) for a in args if a[3]]
        vals = []
        for a in args:
            if a[3]:
                continue
            vals.append(self.argterm(st, a[0], t))
        if rng:
            self.uid += 1
            v = mk("rand", name, self.uid, rng[0], *vals)
        else:
            v = mk("call", name, *vals)
        self.learn_len(v, t.get("dty", ""))
        self.event("call", name, vals, t.get("span"), v, f)
        # a callee that receives `&mut` may change the place behind it
        k = 0
        for i, a in enumerate(args):
            if a[3]:
                continue
            if a[1] and a[0].op in ("ref", "case"):
                for g, r in guards_of(a[0]):
                    if r.op == "ref":
                        nv = mk("mut", name, k, *( (v,) if rng else vals))
                        old = self.read(st, r.a[0], r.a[1])
                        self.write(st, ("loc", r.a[0], r.a[1]), ite(g, nv, old))
            k += 1
            if self.itm and not (a[2].startswith("&") and "mut " not in a[2][:12]):
                for c in self.itermuts(a[0] if a[0].op != "ref" else self.read(st, a[0].a[0], a[0].a[1])):
                    self.smudge(st, c, True)
        # methods that hand back the `&mut` they were given
        dty = t.get("dty", "")
        if dty.startswith("&") and "mut " in dty[:12] and args and args[0][1] and peel(dty) == peel(args[0][2]):
            return args[0][0], st, TRUE
        return v, st, TRUE

    def argterm(self, st, v, t):
        v = self.val(st, v)
        if v.op == "agg" and v.a[0].startswith("closure:"):
            return self.lam(st, v, t)
        return self.deep(st, v)

    def lam(self, st, clo, t):
        bid = int(clo.a[0].split(":")[1])
        b = self.p.bodies.get(bid)
        if b is None or b in self.callstack:
            return clo
        n = b.argc - 1
        depth = len(self.callstack)
        params = [mk("bv", bid, i) for i in range(n)]
        self.ctx.append(("lam", bid))
        ps = []
        st = dict(st)
        for i, p in enumerate(params):
            ty = b.locals[2 + i]
            if ty.get("m"):
                c = self.newcell()
                st[c] = p
                ps.append(mk("ref", c, ()))
            else:
                ps.append(p)
        try:
            v, st2, g = self.run(b, [clo] + ps, st)
            r = mk("lam", self.deep(st2, v))
        except Limit:
            r = clo
        finally:
            self.ctx.pop()
        return r

    def callval(self, fv, args, st, t):
        self_ = fv
        if fv.op == "ref":
            fv = self.val(st, fv)
        if fv.op == "case":
            parts = []
            for g, leaf in guards_of(fv):
                v, s, g2 = self.callval(leaf, args, dict(st), t)
                if v is not BOT:
                    parts.append((g, v, s))
            if not parts:
                return BOT, st, FALSE
            val = BOT
            for g, v, _ in parts:
                val = ite(g, v, val)
            _, so = self.merge([(g, s) for g, _, s in parts])
            return val, so, TRUE
        if fv.op == "fn":
            f = self.fnrefs[fv.a[0]]
            return self.call(f, args, st, t)
        if fv.op == "agg" and fv.a[0].startswith("closure:"):
            b = self.p.bodies.get(int(fv.a[0].split(":")[1]))
            if b is not None and b not in self.callstack and b.argc == 1 + len(args):
                return self.run(b, [self_] + [a[0] for a in args], st)
        st = dict(st)
        vals = [self.argterm(st, a[0], t) for a in args]
        v = mk("call", "apply", self.deep(st, fv), *vals)
        self.event("call", "apply", [fv] + vals, t.get("span"), v)
        for k, a in enumerate(args):
            if a[0].op == "ref":
                self.write(st, ("loc", a[0].a[0], a[0].a[1]), mk("mut", "apply", k, fv, *vals))
        return v, st, TRUE

    def apply(self, fv, vals, st, t):
        """Calls a function value with plain values; returns (value, store)."""
        v, st, g = self.callval(fv, [(x, 0, "", 0) for x in vals], st, t)
        return v, st

    # ------------------------------------------------------------ entry points
    def summary(self, path, names=None, values=None, item=None):
        its = self.p.find(path) if item is None else [item]
        if not its:
            raise KeyError(path)
        b = self.p.bodies[its[0]["item"]]
        return self.summary_body(b, names, values)

    def summary_body(self, b, names=None, values=None):
        st = {}
        args = []
        vals = []
        cells = []
        for i in range(b.argc):
            l = b.locals[1 + i]
            nm = names[i] if names and i < len(names) else l.get("n", "arg%d" % i)
            v = values[i] if values and i < len(values) and values[i] is not None else sym(nm, l["t"])
            self.learn_len(v, l["t"])
            vals.append(v)
            if l.get("m"):
                c = self.newcell()
                st[c] = v
                args.append(mk("ref", c, ()))
                cells.append(c)
            else:
                args.append(v)
                cells.append(None)
        ev0 = len(self.events)
        self.gstack = []
        v, so, g = self.run(b, args, st)
        ev = self.events[ev0:]
        del self.events[ev0:]
        final = [self.deep(so, so[c]) if c is not None and c in so else None for c in cells]
        return Summary(self.deep(so, v), vals, final, ev, g)


# ---------------------------------------------------------------- helpers

def fits(n, ty):
    m = re.match(r"^([iu])(8|16|32|64|128|size)$", ty)
    if not m:
        return True
    bits = 64 if m.group(2) == "size" else int(m.group(2))
    return (0 <= n < 1 << bits) if m.group(1) == "u" else (-(1 << (bits - 1)) <= n < 1 << (bits - 1))


def widening(a, b):
    ra = re.match(r"^([iu])(8|16|32|64|128|size)$", a)
    rb = re.match(r"^([iu])(8|16|32|64|128|size)$", b)
    if not ra or not rb:
        return False
    x = 64 if ra.group(2) == "size" else int(ra.group(2))
    y = 64 if rb.group(2) == "size" else int(rb.group(2))
    if ra.group(1) == rb.group(1):
        return x <= y
    return ra.group(1) == "u" and x < y


def t_eqb(a, b):
    return lift(lambda x, y: b_not(y) if x is FALSE else y if x is TRUE else b_not(x) if y is FALSE else x if y is TRUE else t_eq(x, y), a, b)


_cr = {}


def contains_ref(v):
    r = _cr.get(v)
    if r is None:
        if v.op == "ref":
            r = True
        else:
            r = False
            for c in children(v):
                if contains_ref(c):
                    r = True
                    break
        _cr[v] = r
    return r


def refs_in(v):
    if not contains_ref(v):
        return set()
    out = set()
    for x in subterms(v):
        if x.op == "ref":
            out.add(x.a[0])
    return out


def leaves(t):
    if t.op == "case":
        for _, v in t.a[1]:
            yield from leaves(v)
    else:
        yield t


def guards_of(t):
    """[(guard, leaf)] with one guard tree per distinct leaf."""
    if t.op != "case":
        return [] if t is BOT else [(TRUE, t)]
    leaves = []
    seen = set()
    st = [t]
    vis = set()
    while st:
        x = st.pop()
        if x in vis:
            continue
        vis.add(x)
        if x.op == "case":
            for _, v in reversed(x.a[1]):
                st.append(v)
        elif x is not BOT and x not in seen:
            seen.add(x)
            leaves.append(x)
    out = []
    for lf in leaves:
        memo = {}

        def go(x):
            if x is BOT:
                return BOT
            if x.op != "case":
                return TRUE if x is lf else FALSE
            r = memo.get(x)
            if r is None:
                r = rawcase(x.a[0], [(l, go(v)) for l, v in x.a[1]])
                memo[x] = r
            return r
        out.append((go(t), lf))
    return out


def cofg(g, s, label):
    """Guard tree g under the assumption that s has the label (s anywhere in the tree)."""
    memo = {}

    def go(x):
        if x.op != "case":
            return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is s:
                r = go(cof(x, s, label))
            else:
                r = rawcase(x.a[0], [(l, go(v)) for l, v in x.a[1]])
            memo[x] = r
        return r
    return go(g)


def restrict(v, g):
    """v on the condition g only"""
    memo = {}

    def go(x, g):
        if g is FALSE or g is BOT:
            return BOT
        if x.op != "case" or g is TRUE:
            return x
        k = (x, g)
        r = memo.get(k)
        if r is None:
            r = rawcase(x.a[0], [(l, go(y, cofg(g, x.a[0], l))) for l, y in x.a[1]])
            memo[k] = r
        return r
    return go(v, g)


def tests(t, s, labels):
    """the case tree t is decided by s somewhere, with these labels only"""
    st, seen, found = [t], set(), False
    while st:
        x = st.pop()
        if x.op != "case" or x in seen:
            continue
        seen.add(x)
        if x.a[0] is s:
            if not set(case_labels(x)) <= set(labels):
                return False
            found = True
        st.extend(v for _, v in x.a[1])
    return found


def cofv(v, s, label):
    if v.op == "agg":
        if any(isinstance(x, T) and (x.op in ("case", "agg")) for x in v.a[3:]):
            return agg(v.a[0], v.a[1], v.a[2], *[cofv(x, s, label) for x in v.a[3:]])
        return v
    if v.op != "case":
        return v
    memo = {}

    def go(x):
        if x.op != "case":
            return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is s:
                r = go(cof(x, s, label))
            else:
                r = case(x.a[0], [(l, go(v)) for l, v in x.a[1]])
            memo[x] = r
        return r
    return go(v)


def mentions_any(v, b):
    """Does v depend on the current element of space b (or an accumulator)?"""
    sp = set(b.a) if b.op == "zip" else set()
    sp.add(b)
    if b.op == "take":
        sp.add(b.a[0])
        if b.a[0].op == "zip":
            sp |= set(b.a[0].a)
    e = elem(b)
    for x in subterms(v):
        if x.op in ("elem", "idx") and x.a[0] in sp:
            return True
        if x.op in ("acc", "accv", "accn", "rand"):
            return True
        if x is e:
            return True
    return False


def mentions(v, b, mods):
    return mentions_any(v, b)


def contains_except(t, x, allowed):
    """Does t contain x outside occurrences of `allowed`?"""
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen or y is allowed:
            continue
        seen.add(y)
        if y is x:
            return True
        st.extend(children(y))
    return False


UBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def bound(x):
    """An exclusive upper bound of a position, or None."""
    if x.op == "idx":
        n = known_len(x.a[0])
        return most(x.a[0]) if n is None else n
    if x.op == "elem" and x.a[0].op == "range":
        lo, hi = x.a[0].a[:2]
        if lo.op == "int" and hi.op == "int" and lo.a[0] >= 0:
            return hi.a[0]
    return None


def nobits(x, idx):
    r = TRUE
    for i in idx:
        r = b_and(r, b_not(bitset(x, I(i))))
    return r


def noneset(x, y, ty):
    """x == y; a comparison of masked or shifted bits with zero becomes a statement about single bits"""
    for p, q in ((x, y), (y, x)):
        if p is FALSE:
            if q.op == "bit" and q.a[0] == "BitAnd" and len(q.a) == 3:
                for u, m in ((q.a[1], q.a[2]), (q.a[2], q.a[1])):
                    if m.op == "int" and m.a[0] > 0 and u.op != "int" and bin(m.a[0]).count("1") <= 16:
                        return nobits(u, [i for i in range(UBITS[ty] - 1, -1, -1) if m.a[0] >> i & 1])
            if q.op == "bin" and q.a[0] == "Shr" and q.a[2].op == "int" and UBITS[ty] <= 16 and 0 <= q.a[2].a[0] < UBITS[ty]:
                return nobits(q.a[1], range(UBITS[ty] - 1, q.a[2].a[0] - 1, -1))
    return t_eq(x, y)


INTTY = re.compile(r"^[iu](8|16|32|64|128|size)$")


def bytelt(a, b, ty):
    """a < b; for a single byte and a power of two, a statement about its high bits"""
    uns = ty.startswith("u")
    if ty == "u8":
        def f(x, y):
            for p, q, k in ((x, y, 0), (y, x, 1)):
                if q.op == "int" and p.op in ("index", "sym", "fld"):
                    c = q.a[0] + k
                    if 0 < c < 256 and c & (c - 1) == 0:
                        r = nobits(p, range(7, c.bit_length() - 2, -1))
                        return r if k == 0 else b_not(r)
            return t_lt(x, y, uns)
        return lift(f, a, b)
    return t_lt(a, b, uns)


def bitset(x, i):
    """Whether bit i of the unsigned integer x is set."""
    def f(x, i):
        while True:
            if x.op == "bin" and x.a[0] == "Shr":
                i = add(i, x.a[2])
                x = x.a[1]
            elif x.op == "cast" and x.a[0] in UBITS and i.op == "int" and i.a[0] < UBITS[x.a[0]]:
                x = x.a[1]
            else:
                break
        if x.op == "int" and i.op == "int" and x.a[0] >= 0:
            return I(x.a[0] >> i.a[0] & 1)
        if i.op == "int":
            b = bound(x)
            if b is not None and b <= 1 << i.a[0]:
                return FALSE
        return mk("bitset", x, i)
    return lift(f, x, i)


register("bitset", bitset)


def _bin(op, x, y):
    """a shift or division whose operands have become known"""
    def f(x, y):
        if x.op == "int" and y.op == "int" and x.a[0] >= 0:
            p, q = x.a[0], y.a[0]
            if op == "Shr" and 0 <= q < 128:
                return I(p >> q)
            if op == "Shl" and (p == 0 or (q == 0)):
                return x
            if op == "Div" and q > 0:
                return I(p // q)
            if op == "Rem" and q > 0:
                return I(p % q)
        return mk("bin", op, x, y)
    return lift(f, x, y)


def _bit(op, *xs):
    def f(*xs):
        if op in ("BitAnd", "BitOr", "BitXor"):
            k = [x.a[0] for x in xs if x.op == "int"]
            if len(k) > 1 and min(k) >= 0:
                r = k[0]
                for v in k[1:]:
                    r = r & v if op == "BitAnd" else r | v if op == "BitOr" else r ^ v
                xs = [x for x in xs if x.op != "int"]
                if not xs:
                    return I(r)
                xs = sorted(xs + [I(r)], key=lambda t: t.id)
            for x in xs:
                if x is FALSE:
                    if op == "BitAnd":
                        return FALSE
                    rest = [y for y in xs if y is not x]
                    if len(rest) == 1:
                        return rest[0]
        return mk("bit", op, *xs)
    return lift(f, *xs)


register("bin", _bin)
register("bit", _bit)


def shifted(init, step, acc, n):
    """the value after n steps of `x += c`, `x >>= c` (or `x <<= c` of a single bit)"""
    from .arith import add, neg, t_mul
    if step.op == "bin" and step.a[0] in ("Shr", "Shl") and step.a[1] is acc and step.a[2].op == "int" and (step.a[0] == "Shr" or init is TRUE):
        return mk("bin", step.a[0], init, t_mul(n, step.a[2]))
    d = add(step, neg(acc)) if step.op == "add" and acc in step.a else None
    if d is not None and d.op == "int":
        return add(init, t_mul(n, d))
    if step.op == "skip" and step.a[0] is acc and step.a[1].op == "int":
        from .seqs import t_skip
        return t_skip(init, t_mul(n, step.a[1]))
    return None


def redrawn(a, b, uid0, ids):
    """b is a with its random draws made again (in a loop entered at uid0)."""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(redrawn(x, y, uid0, ids) for x, y in zip(a, b))
        return a == b
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op == "rand":
        if b.a[1] <= uid0 or ids.setdefault(a.a[1], b.a[1]) != b.a[1]:
            return False
        return a.a[0] == b.a[0] and all(redrawn(x, y, uid0, ids) for x, y in zip(a.a[2:], b.a[2:]))
    return all(redrawn(x, y, uid0, ids) for x, y in zip(a.a, b.a))


LOSSY = {"foldsys", "last", "unk"}


def lossy(t):
    return contains(t, lambda x: x.op in LOSSY)


def conv_g(g, m):
    return asguard_any(subst(g, m))


def asguard_any(t):
    return asguard(t) if t.op != "case" else asguard(t)


def each_in_turn(b, items):
    """what is taken in when items are, for every element of b: part by part when b is a concatenation"""
    if b.op == "concat" and not any(contains_except(x, b, mk("elem", b)) for x in items):
        out = []
        e = mk("elem", b)
        for p in b.a:
            if is_arr(p):
                for v in p.a[3:]:
                    out.extend(subst(x, {e: v}) for x in items)
            elif p.op == "case":
                return [mk("foreach", b, *items)]
            else:
                out.append(mk("foreach", ispace(p), *[subst(x, {e: elem(p)}) for x in items]))
        return out
    return [mk("foreach", b, *items)]


def absorb(h, *items):
    out = []
    for x in items:
        if x.op == "segs" and x.a[1] is UNIT:
            for l, hh, v in seg_parts(x):
                out.append(v if v.op != "el" else arr(v.a[0]))
        elif x.op == "concat":
            out.extend(x.a)
        else:
            out.append(x)
    if h.op == "absorb":
        out = list(h.a[1:]) + out
        h = h.a[0]
    # adjacent literal bytes are one literal
    lit = []
    for x in out:
        b = litbytes(x)
        if b == b"":
            continue
        if b is not None and lit and litbytes(lit[-1]) is not None:
            b = litbytes(lit[-1]) + b
            lit[-1] = arr(*[I(c) for c in b])
        else:
            lit.append(arr(*[I(c) for c in b]) if b is not None else x)
    if not lit:
        return h
    return mk("absorb", h, *lit)


def litbytes(x):
    if x.op == "bytes" and len(x.a) > 0 and isinstance(x.a[0], str):
        return bytes.fromhex(x.a[0])
    if is_arr(x) and all(y.op == "int" and 0 <= y.a[0] < 256 for y in x.a[3:]):
        return bytes(y.a[0] for y in x.a[3:])
    if x.op == "repeat" and x.a[0].op == "int" and x.a[1].op == "int" and x.a[1].a[0] <= 256 and 0 <= x.a[0].a[0] < 256:
        return bytes([x.a[0].a[0]]) * x.a[1].a[0]
    return None


register("absorb", absorb)
register("fld", lambda t, n: _fld(t, n))
register("as", lambda t, v: _as(t, v))


def _fld(t, n):
    if t.op == "case":
        return map_leaves(t, lambda l: _fld(l, n))
    if t is BOT:
        return BOT
    if t.op == "agg":
        r = agg_get(t, n)
        return r if r is not None else unk("nofield")
    if t.op == "upd" and t.a[1] == ("f", n):
        return t.a[3]
    if t.op == "upd" and t.a[1][0] == "f":
        return _fld(t.a[0], n)
    return mk("fld", t, n)


def _as(t, v):
    if t.op == "case":
        return map_leaves(t, lambda l: _as(l, v))
    if t is BOT:
        return BOT
    if t.op == "agg":
        return t if t.a[1] == v else BOT
    return mk("as", t, v)
