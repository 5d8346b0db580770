"""Reading a halo2 circuit: what `configure` constrains and what `synthesize` puts where.

A circuit is run through the engine with the proof system's layouter, regions, columns and cells given
a meaning: columns and selectors are distinct names, an assigned cell is a name that carries the value
witnessed for it, copying a cell gives the same cell, and every constraint is recorded.  A custom gate
enabled at a row is then the gate's polynomials with each query replaced by the cell at that place, so
that what is compared is the relation between cells and not the layout chosen for it.
"""
import re
from .terms import *
from .arith import t_add, t_sub, t_mul, neg as t_neg
from .interp import Interp, cname, guardbool, g_and
from .mir import peel
from .seqs import arr, is_arr

V = "value"


def head(ty):
    return re.sub(r"<.*", "", peel(ty)).strip()


def dropped(ty):
    h = head(ty)
    return "Layouter" in peel(ty)[:60] and h.split("::")[-1] in ("NamespacedLayouter", "impl Layouter") or "Layouter" in h or h.endswith("Chip") or h.endswith("Config")


class Halo(Interp):
    def __init__(self, prog):
        super().__init__(prog)
        self.log = []
        self.n = 0

    def fresh(self, kind, *a):
        self.n += 1
        return mk("call", kind, I(self.n), *a)

    def note(self, *x):
        g = TRUE
        for y in self.gstack:
            g = g_and(g, y)
        self.log.append((g,) + x)

    def call(self, f, args, st, t):
        if f.get("rcrate") != "orchard":
            n = cname(f)
            path = f.get("fn", "") + " " + f.get("trait", "")
            own = f.get("rcrate") or f.get("crate") or ""
            if "halo2" in path.split("<")[0] or own.startswith("halo2") or own in ("sinsemilla",) or n in ("Add::add", "Sub::sub", "Mul::mul", "Neg::neg") and "halo2" in f.get("self", ""):
                h = HANDLERS.get(n) or HANDLERS.get("*::" + n.split("::")[-1])
                if h is not None:
                    args2, st = self.hold(args, st)
                    r = h(self, st, f, args2, t)
                    if r is not None:
                        return r[0], r[1], TRUE
                if n not in self.models:
                    return self.gadget(n, f, args, st, t)
        return super().call(f, args, st, t)

    def gadget(self, n, f, args, st, t):
        vals = [self.argterm(st, a[0], t) for a in args if not dropped(a[2])]
        n = "::".join(n.split("::")[-2:]).replace(">", "")
        if n.split("::")[-1] in FREE:
            # what the prover is free to choose: every use is a new cell
            v = self.fresh(n.split("::")[-1], *vals)
        else:
            v = mk("call", n, *vals)
        if any("Layouter" in a[2] for a in args):
            self.note("gadget", n, v)
        d = t.get("dty", "")
        if re.match(r"^(std|core)::result::Result<", d):
            v = agg("std::result::Result", "Ok", ("0",), v)
        return v, st, TRUE

    def app(self, fv, vals, st, t):
        return self.apply(fv, vals, st, t)


HANDLERS = {}


def on(*names):
    def d(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn
    return d


FREE = ("witness_short", "from_subpieces", "witness_check", "from_field_elem", "from_bitstring", "witness_short_check")


def OK(v):
    return agg("std::result::Result", "Ok", ("0",), v)


def val(I_, st, args, i):
    return I_.deep(st, I_.val(st, args[i][0]))


# ---------------------------------------------------------------- constraint system
@on("ConstraintSystem::advice_column", "ConstraintSystem::fixed_column", "ConstraintSystem::instance_column",
    "ConstraintSystem::selector", "ConstraintSystem::complex_selector", "ConstraintSystem::lookup_table_column")
def h_col(I_, st, f, args, t):
    return I_.fresh(cname(f).split("::")[1]), st


@on("ConstraintSystem::enable_equality", "ConstraintSystem::enable_constant")
def h_en(I_, st, f, args, t):
    I_.note(cname(f).split("::")[1], val(I_, st, args, 1))
    return UNIT, st


@on("VirtualCells::query_selector")
def h_qs(I_, st, f, args, t):
    return mk("call", "q", val(I_, st, args, 1)), st


@on("VirtualCells::query_advice", "VirtualCells::query_fixed", "VirtualCells::query_instance", "VirtualCells::query_any")
def h_qa(I_, st, f, args, t):
    r = val(I_, st, args, 2) if len(args) > 2 else I(0)
    return mk("call", "q", val(I_, st, args, 1), r), st


@on("Rotation::cur")
def h_cur(I_, st, f, args, t):
    return I(0), st


@on("Rotation::next")
def h_next(I_, st, f, args, t):
    return I(1), st


@on("Rotation::prev")
def h_prev(I_, st, f, args, t):
    return I(-1), st


@on("ConstraintSystem::create_gate")
def h_gate(I_, st, f, args, t):
    c = I_.newcell()
    st = dict(st)
    st[c] = sym("cells", "")
    v, st = I_.app(args[2][0], [I_.ref(c)], st, t)
    I_.note("gate", val(I_, st, args, 1), I_.deep(st, v))
    return UNIT, st


@on("Constraints::with_selector")
def h_ws(I_, st, f, args, t):
    from .models import toseq_ty
    s = toseq_ty(I_, I_.val(st, args[1][0]), args[1][2])
    return mk("call", "with_selector", val(I_, st, args, 0), I_.deep(st, s)), st


# ---------------------------------------------------------------- layouter and regions
@on("Layouter::namespace")
def h_ns(I_, st, f, args, t):
    return sym("layouter", ""), st


@on("Layouter::assign_region")
def h_region(I_, st, f, args, t):
    c = I_.newcell()
    st = dict(st)
    name, st = I_.app(args[1][0], [], st, t)
    st = dict(st)
    st[c] = I_.fresh("region", I_.deep(st, name))
    return I_.app(args[2][0], [I_.ref(c)], st, t)


@on("Layouter::constrain_instance")
def h_inst(I_, st, f, args, t):
    I_.note("public", val(I_, st, args, 1), val(I_, st, args, 2), val(I_, st, args, 3))
    return OK(UNIT), st


@on("Region::assign_advice", "Region::assign_fixed")
def h_adv(I_, st, f, args, t):
    v, st = I_.app(args[4][0], [], st, t)
    cell = I_.fresh("cell", I_.deep(st, v))
    I_.note("put", val(I_, st, args, 0), val(I_, st, args, 2), val(I_, st, args, 3), cell)
    return OK(cell), st


@on("Region::assign_advice_from_constant")
def h_advc(I_, st, f, args, t):
    cell = mk("call", "constant", val(I_, st, args, 4))
    I_.note("put", val(I_, st, args, 0), val(I_, st, args, 2), val(I_, st, args, 3), cell)
    return OK(cell), st


@on("Region::assign_advice_from_instance")
def h_advi(I_, st, f, args, t):
    cell = mk("call", "public", val(I_, st, args, 2), val(I_, st, args, 3))
    I_.note("put", val(I_, st, args, 0), val(I_, st, args, 4), val(I_, st, args, 5), cell)
    return OK(cell), st


@on("AssignedCell::copy_advice")
def h_copy(I_, st, f, args, t):
    cell = val(I_, st, args, 0)
    I_.note("put", val(I_, st, args, 2), val(I_, st, args, 3), val(I_, st, args, 4), cell)
    return OK(cell), st


@on("Region::constrain_equal")
def h_ceq(I_, st, f, args, t):
    I_.note("equal", val(I_, st, args, 1), val(I_, st, args, 2))
    return OK(UNIT), st


@on("Region::constrain_constant")
def h_cco(I_, st, f, args, t):
    I_.note("equal", val(I_, st, args, 1), mk("call", "constant", val(I_, st, args, 2)))
    return OK(UNIT), st


@on("Point::constrain_equal", "NonIdentityPoint::constrain_equal")
def h_peq(I_, st, f, args, t):
    I_.note("equal", val(I_, st, args, 0), val(I_, st, args, 2))
    return OK(UNIT), st


@on("Selector::enable")
def h_enable(I_, st, f, args, t):
    I_.note("enable", val(I_, st, args, 1), val(I_, st, args, 0), val(I_, st, args, 2))
    return OK(UNIT), st


def value_of(x):
    if x.op == "case":
        return map_leaves(x, value_of)
    if x.op == "call" and x.a[0] == "cell":
        return x.a[2]
    if x.op == "call" and x.a[0] == "constant":
        return x.a[1]
    return mk("call", V, x)


@on("AssignedCell::value", "RangeConstrained::value", "FieldValue::value", "AssignedCell::value_field", "MessagePiece::value")
def h_value(I_, st, f, args, t):
    return value_of(val(I_, st, args, 0)), st


@on("AssignedCell::cell", "Point::inner", "NonIdentityPoint::inner", "X::inner", "MessagePiece::inner", "RangeConstrained::inner", "message::MessagePiece::cell_value",
    "MessagePiece::cell_value", "Chip::config", "AssignedCell::evaluate")
def h_same(I_, st, f, args, t):
    return val(I_, st, args, 0), st


# coordinates of points
@on("EccPoint::x", "NonIdentityEccPoint::x", "Point::extract_p", "NonIdentityPoint::extract_p")
def h_x(I_, st, f, args, t):
    return mk("call", "x", val(I_, st, args, 0)), st


@on("EccPoint::y", "NonIdentityEccPoint::y")
def h_y(I_, st, f, args, t):
    return mk("call", "y", val(I_, st, args, 0)), st


# what the prover is free to choose: every use is a new name carrying the value witnessed
@on("Point::new", "NonIdentityPoint::new", "ScalarFixed::new")
def h_new(I_, st, f, args, t):
    r = I_.fresh(cname(f), val(I_, st, args, 2))
    return OK(r), st


# ---------------------------------------------------------------- Value<T>: the honest prover's value
@on("Value::known", "Value::as_ref", "Value::as_mut", "Value::to_field", "Value::cloned", "Value::copied")
def h_known(I_, st, f, args, t):
    return val(I_, st, args, 0), st


@on("Value::map")
def h_map(I_, st, f, args, t):
    return I_.app(args[1][0], [val(I_, st, args, 0)], st, t)


@on("Value::and_then")
def h_then(I_, st, f, args, t):
    return I_.app(args[1][0], [val(I_, st, args, 0)], st, t)


@on("Value::zip")
def h_zip(I_, st, f, args, t):
    return tup(val(I_, st, args, 0), val(I_, st, args, 1)), st


@on("Value::unzip")
def h_unzip(I_, st, f, args, t):
    return val(I_, st, args, 0), st


@on("Value::error_if_known_and")
def h_err(I_, st, f, args, t):
    return OK(UNIT), st


@on("Add::add", "Sub::sub", "Mul::mul", "Neg::neg")
def h_arith(I_, st, f, args, t):
    s = peel(f.get("self", ""))
    m = re.match(r"^halo2_proofs::(?:circuit::)?(?:value::)?Value<(.*)>$", s)
    if not m and "Expression" not in s:
        return None
    op = f["m"]
    if m and m.group(1).split("<")[0] in I_.p.adts and I_.p.adts[m.group(1).split("<")[0]].get("local"):
        tr = {"add": "Add", "sub": "Sub", "mul": "Mul", "neg": "Neg"}[op]
        for p in I_.p.by_path:
            if p.startswith("<%s as " % m.group(1)) and re.search(r"ops::%s(<.*>)?>::%s$" % (tr, op), p):
                b = I_.p.bodies.get(I_.p.find(p)[0]["item"])
                v, st2, g = I_.run(b, [val(I_, st, args, i) for i in range(len(args))], st)
                return v, st2
        return None
    a = val(I_, st, args, 0)
    if op == "neg":
        return t_neg(a), st
    b = val(I_, st, args, 1)
    return {"add": t_add, "sub": t_sub, "mul": t_mul}[op](a, b), st


@on("Expression::Constant")
def h_const(I_, st, f, args, t):
    return val(I_, st, args, 0), st


@on("Expression::square", "Value::square")
def h_sq(I_, st, f, args, t):
    a = val(I_, st, args, 0)
    return t_mul(a, a), st


@on("Expression::double", "Value::double")
def h_dbl(I_, st, f, args, t):
    a = val(I_, st, args, 0)
    return t_add(a, a), st
