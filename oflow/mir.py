"""Loads the extractor's JSON lines and prepares control-flow graphs."""
import json, os, re


class Body:
    __slots__ = ("j", "id", "path", "blocks", "succ", "rpo", "loops", "loop_of", "argc", "locals", "ready")

    def __init__(self, j):
        self.j = j
        self.id = j["id"]
        self.path = j["path"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.ready = False

    def prepare(self):
        if self.ready:
            return self
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b["t"]
            k = t["k"]
            if k == "goto":
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["ts"]] + [t["else"]]
            elif k in ("call", "assert"):
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            succ.append(seen)
        self.succ = succ
        # rpo
        order, seen, onstack = [], set(), []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        pos = {b: i for i, b in enumerate(order)}
        # dominators
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    L = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(preds[x])
        self.loops = loops
        self.ready = True
        return self


class Program:
    def __init__(self, path):
        self.items = []
        self.adts = {}
        self.bodies = {}
        self.unsafe = None
        with open(path) as f:
            lines = f.readlines()
        if True:
            lines, fields = canonical(lines)
            for l in lines:
                j = json.loads(l)
                if fields:
                    rename_fields(j, fields)
                if "item" in j:
                    self.items.append(j)
                elif "adt" in j:
                    self.adts[j["adt"]] = j
                elif "unsafe_blocks" in j:
                    self.unsafe = j["unsafe_blocks"]
                else:
                    self.bodies[j["id"]] = Body(j)
        from . import ranges
        ranges.ADTS.clear()
        ranges.ADTS.update(self.adts)
        ranges._ty.clear()
        ranges._iv.clear()
        self.by_path = {}
        self.by_name = {}
        for it in self.items:
            self.by_path.setdefault(it["path"], []).append(it)
            self.by_name.setdefault(noargs(it["path"]), []).append(it)

    def find(self, path):
        """items at a path; type arguments may be left out when that is unambiguous"""
        l = self.by_path.get(path, [])
        if not l and "::<" not in path:
            l = self.by_name.get(path, [])
            if len(set(x["path"] for x in l)) > 1:
                return []
        return l


BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def canonical(lines, base=None):
    """Types and private fields that were only renamed go back to the names the rules are written with: a type of the same
    module with the same shape, a field of the same type in the same place."""
    if base is None:
        if not os.path.exists(BASE):
            return lines, {}
        base = json.load(open(BASE))
    cur = {}
    for l in lines:
        if l.startswith('{"adt"'):
            j = json.loads(l)
            if j["local"]:
                cur[j["adt"]] = [[v["n"], [f[:2] for f in v["f"]]] for v in j["vs"]]
    lost = [p for p in base if p not in cur]
    new = [p for p in cur if p not in base]
    for p in lost:
        def shape(vs, own):
            return [[n if len(vs) > 1 else "", [t.replace(own, "Self") for _, t in fs]] for n, fs in vs]
        c = [q for q in new if q.rsplit("::", 1)[0] == p.rsplit("::", 1)[0] and shape(cur[q], q) == shape(base[p], p)]
        c2 = [r for r in lost if r.rsplit("::", 1)[0] == p.rsplit("::", 1)[0] and shape(base[r], r) == shape(base[p], p)]
        if len(c) == 1 and len(c2) == 1:
            q = c[0]
            pat = re.compile(r"(?<![\w:])" + re.escape(q) + r"(?!\w)")
            a, b = q.rsplit("::", 1)[-1], p.rsplit("::", 1)[-1]
            vpat = re.compile(r'("n"|"variant"):"%s"' % re.escape(a))
            lines = [vpat.sub(r'\1:"%s"' % b, pat.sub(p, l)) if a in l else l for l in lines]
            cur[p] = [[b if n == a else n, [[f, pat.sub(p, t)] for f, t in fs]] for n, fs in cur.pop(q)]
    fields = {}
    for p, vs in cur.items():
        if p not in base:
            continue
        bv = dict((n, fs) for n, fs in base[p])
        for n, fs in vs:
            if n not in bv:
                continue
            b = bv[n]
            gone = [f for f in b if f[0] not in [x[0] for x in fs]]
            extra = [f for f in fs if f[0] not in [x[0] for x in b]]
            for g in gone:
                c = [x for x in extra if x[1] == g[1]]
                if c:
                    fields[(p, c[0][0])] = g[0]
                    extra.remove(c[0])
    return lines, fields


def rename_fields(j, m):
    if isinstance(j, list):
        if len(j) == 3 and j[0] == "f" and (j[2], j[1]) in m:
            j[1] = m[(j[2], j[1])]
        for x in j:
            if isinstance(x, (list, dict)):
                rename_fields(x, m)
    elif isinstance(j, dict):
        if "adt" in j and "names" in j:
            j["names"] = [m.get((j["adt"], n), n) for n in j["names"]]
        if "adt" in j and "vs" in j:
            for v in j["vs"]:
                for f in v["f"]:
                    f[0] = m.get((j["adt"], f[0]), f[0])
        for x in j.values():
            if isinstance(x, (list, dict)):
                rename_fields(x, m)


def noargs(p):
    """a path without the type arguments of its segments"""
    out, i = [], 0
    while i < len(p):
        if p.startswith("::<", i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if not d:
                        break
                j += 1
            if p[i + 3:].startswith("impl ") and i == 0 or "impl " in p[i:i + 9]:
                out.append(p[i:j + 1])
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


_ref = re.compile(r"^&(?:'[a-z_0-9]+ )?(?:mut )?")


def peel(t):
    while True:
        m = _ref.match(t)
        if not m or m.end() == 0:
            return t
        t = t[m.end():]


def strip_generics(p):
    """a::B::<T>::c -> a::B::c (keeps <impl X for Y> and <X as Y> readable)."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i):
            nxt = p[i + 3:i + 8]
            if nxt.startswith("impl "):
                out.append(p[i])
                i += 1
                continue
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)
