"""C15: Merkle roots: the node hash, the level order, the side taken at each level, the fixed values of empty subtrees, and path conversions."""
from .prim import *


def bits10(l):
    from oflow.interp import bitset
    return arr(*[bitset(l, I(k)) for k in range(10)])


def crh(s, level, left, right):
    """MerkleCRH: Sinsemilla hash of level || left || right, 0 where undefined"""
    h = call("halo2_gadgets::sinsemilla::primitives::HashDomain::hash",
             call("halo2_gadgets::sinsemilla::primitives::HashDomain::new", S("z.cash:Orchard-MerkleCRH")),
             concat(bits10(level), s.bits(left), s.bits(right)))
    return opt_else(h, ZERO, lambda v: v)


def root(s, path, position, leaf, depth=32):
    from oflow.interp import bitset
    node, l, sib = mk("accv", path), idx(path), fld(elem(path), "0")
    return mk("fold", path, leaf, iff(bitset(position, l), crh(s, l, sib, node), crh(s, l, node, sib)))


def check(R):
    s = Spec(R)
    t = s.t
    H = "<tree::MerkleHashOrchard as incrementalmerkletree::Hashable>::"
    node = lambda x: s.S("MerkleHashOrchard", x)

    def lvl(R):
        return R.arg(H + "combine", 0)
    sm = R.sum(H + "combine")
    lv, le, ri = sm.args
    R.eq("combine", H + "combine", sm.ret, node(crh(s, level_int(lv, sm.ret), fld(le, "0"), fld(ri, "0"))),
         "node hash = MerkleCRH(level, left, right) on 255-bit children, zero where undefined")
    R.fn("leaf", H + "empty_leaf", lambda: node(s.u64p(I(2))), "the uncommitted leaf is 2")
    roots = [s.u64p(I(2))]
    for l in range(32):
        roots.append(crh(s, I(l), roots[-1], roots[-1]))
    sm = R.sum(H + "empty_root")
    lv = sm.args[0]
    R.eq("empty-root", H + "empty_root", sm.ret, index_(arr(*[node(x) for x in roots]), level_ix(lv, sm.ret)),
         "empty_root(l) is l applications of the node hash to the uncommitted leaf with levels 0..l")
    R.fn("empty-tree", "tree::Anchor::empty_tree", lambda: s.S("Anchor", roots[32]), "the empty tree's anchor is the empty root of level 32")
    R.fn("from-cmx", "tree::MerkleHashOrchard::from_cmx", lambda c: node(fld(c, "0")), "a leaf is the extracted note commitment")
    R.fn("root", "tree::MerklePath::root", lambda self, cmx: s.S("Anchor", root(s, fld(self, "auth_path"), fld(self, "position"), fld(cmx, "0"))),
         "root = fold of the node hash over all 32 siblings from the leaf upward, side chosen by that bit of the position")
    R.fn("parts", "tree::MerklePath::from_parts", lambda p, a: s.S("MerklePath", position=p, auth_path=a), "a path consists of exactly the given position and siblings")
    R.fn("new", "tree::MerklePath::new", lambda p, a: s.S("MerklePath", position=p, auth_path=smap(a, node(elem(a)))), "and so when built from field elements", private=True)
    R.fn("position", "tree::MerklePath::position", lambda self: fld(self, "position"), "accessor", private=True)
    R.fn("auth-path", "tree::MerklePath::auth_path", lambda self: fld(self, "auth_path"), "accessor", private=True)
    p = "<tree::MerklePath as std::convert::From<incrementalmerkletree::MerklePath<tree::MerkleHashOrchard, 32>>>::from"
    if R.has(p):
        sm = R.sum(p)
        v = sm.ret
        x = sm.args[0]
        pos, ap = fld(v, "position"), fld(v, "auth_path")
        # position and elements of the given path, unchanged and in order
        bad = bad_position(pos, x)
        if bad:
            R.ob("convert-pos", p, False, "the position is the given path's position", "position %d becomes %d" % bad, val=pos)
        else:
            R.ob("convert-pos", p, only_from(pos, x, "position", ("path_elems",)), "the position is the given path's position", dag(pos)[:300], val=pos)
        rule = "the siblings are the given path's, in order"
        given = [y for y in subterms(ap) if y.op == "call" and "path_elems" in y.a[0] or y.op == "fld" and y.a[0] is x and y.a[1] == "path_elems"]
        if ap in given:
            R.ob("convert-path", p, True, rule)
        elif len(given) != 1 or not only_from(ap, x, "path_elems", ("position",)):
            R.ob("convert-path", p, False, rule, dag(ap)[:300], val=ap)
        else:
            # its 32 elements, one by one
            src = mk("sym", "siblings")
            LEN[src] = 32
            got = [index(subst(ap, {given[0]: src}), I(k)) for k in range(32)]
            wrong = [(k, g) for k, g in enumerate(got) if g is not index(src, I(k))]
            clear = [(k, g) for k, g in wrong if not contains(g, src) or g.op == "index" and g.a[0] is src and g.a[1].op == "int"]
            if clear:
                R.ob("convert-path", p, False, rule, "sibling %d is %s" % (clear[0][0], show(clear[0][1], 4)[:200]), val=clear[0][1])
            elif wrong:
                R.undecided("convert-path", p, rule, "sibling %d: %s" % (wrong[0][0], show(wrong[0][1], 4)[:200]))
            else:
                R.ob("convert-path", p, True, rule)
    R.fn("anchor-from-hash", "<tree::Anchor as std::convert::From<tree::MerkleHashOrchard>>::from", lambda h: s.S("Anchor", fld(h, "0")), "an anchor is the root node")
    R.fn("anchor-from-base", "<tree::Anchor as std::convert::From<pasta_curves::Fp>>::from", lambda h: s.S("Anchor", h), "an anchor is the root node")
    R.fn("anchor-eq", "<tree::Anchor as std::cmp::PartialEq>::eq", lambda a, b: t_eq(fld(a, "0"), fld(b, "0")), "anchors are compared in full")
    R.fn("node-eq", "<tree::MerkleHashOrchard as std::cmp::PartialEq>::eq", lambda a, b: t_eq(fld(a, "0"), fld(b, "0")), "nodes are compared in full")


def bad_position(pos, x):
    """a position of a depth-32 path that the conversion changes, by folding the extracted term at chosen positions"""
    src = [y for y in subterms(pos) if y.op == "call" and "From::from" in y.a[0] and contains(y, x)]
    if len(src) != 1:
        return None
    for v in sorted({f(k) for k in range(32) for f in (lambda k: 1 << k, lambda k: (1 << k) - 1)} | {(1 << 32) - 1, 0xaaaaaaaa, 0x55555555}):
        w = subst(pos, {src[0]: I(v)})
        if w.op == "int" and w.a[0] != v:
            return v, w.a[0]
    return None


def only_from(t, x, must, mustnot):
    txt = [y for y in subterms(t)]
    has = any((y.op in ("fld",) and y.a[0] is x and y.a[1] == must) or (y.op == "call" and must in y.a[0]) for y in txt)
    bad = any((y.op in ("fld",) and y.a[0] is x and y.a[1] in mustnot) or (y.op == "call" and any(m in y.a[0] for m in mustnot)) for y in txt)
    return has and not bad


def level_int(lv, actual):
    """how the analysed tree reads a Level as an integer"""
    for x in subterms(actual):
        if x.op == "bitset":
            y = x.a[0]
            if any(z is lv for z in subterms(y)):
                return y
    return lv


def level_ix(lv, actual):
    for x in subterms(actual):
        if x.op == "index" and any(z is lv for z in subterms(x.a[1])):
            return x.a[1]
    return lv


def index_(a, i):
    return index(a, i)
