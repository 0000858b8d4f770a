"""SQL values and expressions: decision tables."""
from interp import *
from intrinsics import TABLE
from ctx import sym, unit, cell, last
from prog import AnchorError

LOGIC = "sql::execution::expressions::logic_expression::"
VAL = "types_db::value::Val"
VALUE = "types_db::value::Value"
EXPR_OPS = "sql::execution::expressions::abstract_expression::ExpressionOps"


def val(variant, *payload):
    return adt(VAL, variant, tuple((str(i), p) for i, p in enumerate(payload)))


def value(c, v, tid=None):
    """a Value whose payload is v"""
    return c.obj(VALUE, "v", **{"value_": v})


def val_field(c):
    a = c.P.enum(VALUE)
    fs = [f for f in a["variants"][0][2] if f[1] == VAL]
    if len(fs) != 1:
        raise AnchorError("Value has no single Val field")
    return fs[0][0]


def mkvalue(c, v):
    return c.obj(VALUE, "v", **{val_field(c): v})


def tri(o, c):
    """'T' / 'F' / 'N' for an Ok(Value) outcome, else None"""
    v = o.value
    if o.kind != "return" or v is None or v.k != "adt" or v.a[1] != "Ok":
        return None
    x = o.interp.payload(v, "Ok")
    x = o.interp.proj(x, (".", val_field(c)))
    return tri_val(x)


def tri_val(x):
    if x.k == "adt" and x.a[1] == "Null":
        return "N"
    if x.k == "adt" and x.a[1] == "Boolean":
        b = x.a[2][0][1]
        if b.k == "i":
            return "T" if b.a[0] else "F"
    return None


def tv(c, t):
    return mkvalue(c, val("Null") if t == "N" else val("Boolean", TRUE if t == "T" else FALSE))


def kleene(op, l, r):
    if op == "And":
        return "F" if "F" in (l, r) else "T" if (l, r) == ("T", "T") else "N"
    if op == "Or":
        return "T" if "T" in (l, r) else "F" if (l, r) == ("F", "F") else "N"
    return {"T": "F", "F": "T", "N": "N"}[l]


def child_oracle(left, right, extra=()):
    """intercept: evaluating the expression's operands yields the given values"""
    def f(it, st, p, r, u, args, line):
        if p.startswith(EXPR_OPS + "::evaluate"):
            x = args[0]
            n = 0
            while x.k == "ref" and n < 4:
                x = it.deref(st, x)
                n += 1
            if x.k == "arg" and x.a[1] in ("L", "R"):
                v = left if x.a[1] == "L" else right
                return [(st, v if v.k == "adt" and v.a[0] == RESULT else ok(v))]
        return None
    return f


def expr_obj(c, ty, **fields):
    lref, rref = ref(("H", "left")), ref(("H", "right"))
    mem = {("H", "left"): sym("L"), ("H", "right"): sym("R")}
    o = c.obj(ty, "self", left=lref, right=rref, **fields)
    sref, m = cell(o, "self")
    m.update(mem)
    return sref, m


def logic(c):
    c.rule_text = ("For each operator (AND, OR, NOT) and each combination of operand truth values {true,false,NULL}, every abstract path of "
                   "LogicExpression::evaluate and ::evaluate_join must return the Kleene value; an operand error must be returned as an error.")
    ty = LOGIC + "LogicExpression"
    for m in ("evaluate", "evaluate_join"):
        f = c.P.method(EXPR_OPS, ty, m)
        for op in c.variants(LOGIC + "LogicType"):
            for l in "TFN":
                for r in "TFN":
                    s, mem = expr_obj(c, ty, logic_type=unit(LOGIC + "LogicType", op))
                    outs = c.explore(f, [s], mem, intercept=child_oracle(tv(c, l), tv(c, r)))
                    want = kleene(op, l, r)
                    for o in outs:
                        got = tri(o, c)
                        c.require(got == want, f"{m}:{op}:{l}{r}", f"{l} {op} {r} must be {want}; a path of {f['p']} gives {got or show(o.value) if o.value else o.kind}",
                                  f, what="truth-table entries")
            for l, r in (("E", "T"), ("F", "E") if op == "And" else ("T", "E")):
                e = err(sym("operand error"))
                L, R = (e if l == "E" else tv(c, l)), (e if r == "E" else tv(c, r))
                s, mem = expr_obj(c, ty, logic_type=unit(LOGIC + "LogicType", op))
                if l == "E":
                    for o in c.explore(f, [s], mem, intercept=child_oracle(L, R)):
                        c.require(o.kind == "return" and o.value.k == "adt" and o.value.a[1] == "Err", f"{m}:{op}:error", f"{f['p']}: the operand's evaluation error is not returned", f,
                                  what="error propagation")
    c.floor("truth-table entries", 54)


# ------------------------------------------------------------------------------------------------ V02
TID = "types_db::type_id::TypeId"
TYPE = "types_db::types::Type"
CMPEXP = "sql::execution::expressions::comparison_expression::"
WIDTH = {"TinyInt": 8, "SmallInt": 16, "Integer": 32, "BigInt": 64}
RTY = {"TinyInt": "i8", "SmallInt": "i16", "Integer": "i32", "BigInt": "i64", "Decimal": "f64", "Float": "f32"}
NUMERIC = ("TinyInt", "SmallInt", "Integer", "BigInt", "Float", "Decimal")
TAG = {"VarLen": "VarChar", "ConstLen": "Char", "Null": "Invalid"}
REL = {"compare_equals": "Eq", "compare_not_equals": "Ne", "compare_less_than": "Lt", "compare_less_than_equals": "Le",
       "compare_greater_than": "Gt", "compare_greater_than_equals": "Ge"}
HOLDS = {"Eq": "e", "Ne": "lgu", "Lt": "l", "Le": "le", "Gt": "g", "Ge": "ge"}


def payload_types(c, variant):
    for v in c.P.enum(VAL)["variants"]:
        if v[0] == variant:
            return [f[1] for f in v[2]]
    raise AnchorError(f"Val::{variant} is gone")


def tagged(c, variant, name):
    """the Value of that variant with symbolic payload and the matching type tag"""
    n = len(payload_types(c, variant))
    p = [sym(name)] if n == 1 else [sym(f"{name}{i}") for i in range(n)]
    tf = [f[0] for f in c.P.enum(VALUE)["variants"][0][2] if f[1] == TID]
    if len(tf) != 1:
        raise AnchorError("Value has no single TypeId field")
    return c.obj(VALUE, name, **{val_field(c): val(variant, *p), tf[0]: unit(TID, TAG.get(variant, variant))})


def common(x, y):
    """the type two numeric operands are computed in"""
    for t in ("Decimal", "Float", "BigInt", "Integer", "SmallInt", "TinyInt"):
        if t in (x, y):
            return t


def as_common(v, frm, to):
    if to in WIDTH or frm == to:
        return v
    return mk("cast", RTY[to], v)


def int_worlds(o, a, b):
    """which of a<b, a=b, a>b the path condition leaves possible"""
    it, st = o.interp, o.state
    w = ""
    if it.decide(st, it.cmp("Lt", a, b)) is not False:
        w += "l"
    if it.decide(st, it.cmp("Eq", a, b)) is not False:
        w += "e"
    if it.decide(st, it.cmp("Gt", a, b)) is not False:
        w += "g"
    return w


def fl_worlds(o, a, b):
    """the same for floating point, with u = unordered"""
    w = ""
    for x in "legu":
        okw = True
        for t, want in ((("fcmp", "Lt", a, b), x == "l"), (("fcmp", "Lt", b, a), x == "g"), (("fcmp", "Le", a, b), x in "le"),
                        (("fcmp", "Le", b, a), x in "ge"), (("fcmp", "Eq") + tuple(sorted((a, b))), x == "e")):
            d = o.interp.decide(o.state, mk(*t))
            if d is not None and d != want:
                okw = False
        if okw:
            w += x
    return w


def two(c, x, y):
    m, rs = {}, []
    for n, t in (("a", x), ("b", y)):
        r, mm = cell(tagged(c, t, n), n)
        m.update(mm)
        rs.append(r)
    return rs, m


def check_relation(c, outs, f, rel, x, y, read, key):
    """every path's verdict is the truth of `a rel b` in every ordering its condition allows"""
    t = common(x, y)
    a, b = as_common(sym("a"), x, t), as_common(sym("b"), y, t)
    for o in outs:
        got = read(o)
        w = int_worlds(o, a, b) if t in WIDTH else fl_worlds(o, a, b)
        if not w:
            continue
        bad = got not in ("T", "F") or any((z in HOLDS[rel]) != (got == "T") for z in w)
        names = {"l": "a<b", "e": "a=b", "g": "a>b", "u": "a NaN operand"}
        c.require(not bad, key, f"{f['p']}: {x} a {rel} {y} b: a path allowing {{{', '.join(names[z] for z in w)}}} (compared as {t}) answers {got or show(o.value)}",
                  f, what="relation paths")


def cmpbool(o):
    v = o.value
    return {"CmpTrue": "T", "CmpFalse": "F", "CmpNull": "N"}.get(v.a[1]) if o.kind == "return" and v.k == "adt" else None


def comparisons(c):
    c.rule_text = ("Value comparison: for each of the six operators and each ordered pair of numeric types, every abstract path's answer is the truth of the relation "
                   "for all operand orderings (less, equal, greater, unordered) its path condition allows, with both operands in the wider type; NULL operands give NULL; "
                   "non-numeric operands of one type are compared by their own order. ComparisonExpression maps each operator to that relation, including across types and NULLs.")
    variants = [v for v in c.variants(VAL)]
    for m, rel in REL.items():
        f = c.P.method(TYPE, VALUE, m)
        for x in NUMERIC:
            for y in NUMERIC:
                rs, mem = two(c, x, y)
                check_relation(c, c.explore(f, rs, mem), f, rel, x, y, cmpbool, f"{m}:{x}:{y}")
        for v in variants:
            for x, y in (("Null", v), (v, "Null")):
                rs, mem = two(c, x, y)
                for o in c.explore(f, rs, mem):
                    c.require(cmpbool(o) == "N", f"{m}:{x}:{y}", f"{f['p']}: comparing {x} with {y} must give NULL, a path gives {show(o.value)}", f, what="null paths")
        for v in ("Boolean", "Timestamp", "Date", "Time", "Interval", "VarLen", "ConstLen"):
            rs, mem = two(c, v, v)
            pt = payload_types(c, v)[0]
            for o in c.explore(f, rs, mem):
                got = cmpbool(o)
                a, b = sym("a"), sym("b")
                if pt in INT_BITS or pt == "bool":
                    it = o.interp
                    fa, fb = o.facts.get(a), o.facts.get(b)
                    w = int_worlds(o, a, b)
                    if fa and fb and fa[0] is not None and fa[0] == fa[1] and fb[0] is not None and fb[0] == fb[1]:
                        w = "l" if fa[0] < fb[0] else "g" if fa[0] > fb[0] else "e"
                else:
                    d = o.interp.decide(o.state, mk("eq", *sorted((a, b))))
                    w = int_worlds(o, mk("key", a), mk("key", b))
                    if d is not None:
                        w = "e" if d else w.replace("e", "")
                good = got in ("T", "F") and all((z in HOLDS[rel]) == (got == "T") for z in w if z)
                c.require(good, f"{m}:{v}", f"{f['p']}: {v} a {rel} b: a path allowing {w} answers {show(o.value)}", f, what="relation paths")
    # the expression
    ty = CMPEXP + "ComparisonExpression"
    OPS = {"Equal": "Eq", "NotEqual": "Ne", "LessThan": "Lt", "LessThanOrEqual": "Le", "GreaterThan": "Gt", "GreaterThanOrEqual": "Ge"}
    have = c.variants(CMPEXP + "ComparisonType")
    for op in have:
        if op not in OPS and op != "IsNotNull":
            c.violation("operator:" + op, f"comparison operator {op} has no specified meaning", None, 0)
    for m in ("evaluate", "evaluate_join"):
        f = c.P.method(EXPR_OPS, ty, m)
        for op, rel in OPS.items():
            for x in NUMERIC:
                for y in NUMERIC:
                    s, mem = expr_obj(c, ty, comp_type=unit(CMPEXP + "ComparisonType", op))
                    outs = c.explore(f, [s], mem, intercept=child_oracle(tagged(c, x, "a"), tagged(c, y, "b")))
                    check_relation(c, outs, f, rel, x, y, lambda o: tri(o, c), f"{m}:{op}:{x}:{y}")
            for x, y in (("Null", "Integer"), ("VarLen", "Null"), ("Null", "Null"), ("Decimal", "Null")):
                s, mem = expr_obj(c, ty, comp_type=unit(CMPEXP + "ComparisonType", op))
                for o in c.explore(f, [s], mem, intercept=child_oracle(tagged(c, x, "a"), tagged(c, y, "b"))):
                    c.require(tri(o, c) == "N", f"{m}:{op}:{x}:{y}", f"{f['p']}: {x} {op} {y} must be NULL, a path gives {show(o.value)}", f, what="null paths")
        for x in ("Null", "Integer", "VarLen"):
            s, mem = expr_obj(c, ty, comp_type=unit(CMPEXP + "ComparisonType", "IsNotNull"))
            for o in c.explore(f, [s], mem, intercept=child_oracle(tagged(c, x, "a"), tagged(c, x, "b"))):
                c.require(tri(o, c) == ("F" if x == "Null" else "T"), f"{m}:IsNotNull:{x}", f"{f['p']}: {x} IS NOT NULL gives {show(o.value)}", f, what="null paths")
    c.floor("relation paths", 1400)
    c.floor("null paths", 200)


# ------------------------------------------------------------------------------------------------ V03
ARITH = "sql::execution::expressions::arithmetic_expression::"


def int_range(t):
    w = WIDTH[t]
    return -(1 << w - 1), (1 << w - 1) - 1


def arith_result(op, a, b, t):
    if t in WIDTH:
        if op == "Add":
            return ladd(a, b)
        if op == "Subtract":
            return ladd(a, b, -1)
        if op == "Multiply":
            return mk("op", "Mul", *sorted((a, b)))
        return mk("op", "Div", a, b)
    if op in ("Add", "Multiply"):
        return mk("op", {"Add": "Add", "Multiply": "Mul"}[op], *sorted((a, b)))
    return mk("op", {"Subtract": "Sub", "Divide": "Div"}[op], a, b)


CHK = {"Add": "Add", "Subtract": "Sub", "Multiply": "Mul", "Divide": "Div"}


def check_arith(c, outs, f, op, x, y, key, need_ok, only_same=False):
    t = common(x, y)
    a, b = as_common(sym("a"), x, t), as_common(sym("b"), y, t)
    want = arith_result(op, a, b, t)
    it = outs[0].interp
    zero = lambda o: o.interp.decide(o.state, it.cmp("Eq", b, I(0))) if t in WIDTH else None
    nok = 0
    for o in outs:
        v = o.value
        if o.kind != "return" or v.k != "adt" or v.a[0] != RESULT:
            c.require(False, key, f"{f['p']}: {x} {op} {y} has a path ending in {o.kind} {show(o.value) if o.value else ''}", f, what="arithmetic paths")
            continue
        fits = None
        if t in WIDTH:
            for s in (0, 1):
                d = o.facts.get(mk("discr", mk("checked", CHK[op], *((a, b) if s == 0 else (b, a)), RTY[t])))
                if d and (s == 0 or op in ("Add", "Multiply")):
                    fits = d[0] == 1 if d[0] is not None and d[0] == d[1] else fits
            if fits is None and op != "Divide":
                lo, hi, _ = o.interp.rng(o.state, want) if want.k != "lin" else (None, None, None)
                L, H = int_range(t)
                if o.interp.decide(o.state, o.interp.cmp("Le", I(L), want)) and o.interp.decide(o.state, o.interp.cmp("Le", want, I(H))):
                    fits = True
                elif o.interp.decide(o.state, o.interp.cmp("Lt", want, I(L))) or o.interp.decide(o.state, o.interp.cmp("Gt", want, I(H))):
                    fits = False
            z = zero(o)
        else:
            fits = True
            d = o.interp.decide(o.state, mk("fcmp", "Eq", *sorted((b, mk("f", 0, RTY[t])))))
            if d is None and common(x, y) != y:
                d = o.interp.decide(o.state, o.interp.cmp("Eq", sym("b"), I(0)))
            z = d
        traps = [e for e in o.events if e.kind in ("overflow_check", "panic")]
        if v.a[1] == "Ok":
            nok += 1
            p = o.interp.payload(v, "Ok")
            got = o.interp.proj(p, (".", val_field(c)))
            isit = got.k == "adt" and got.a[1] == t and strip_cast(got.a[2][0][1], RTY[t]) is want
            c.require(isit, key, f"{f['p']}: {x} a {op} {y} b must be the {t} value {show(want)}; a path returns {show(got)}", f, what="arithmetic paths")
            c.require(not traps, key + ":trap", f"{f['p']}: {x} {op} {y}: the computation can abort on overflow at line {traps[0].line if traps else 0}", f,
                      line=traps[0].line if traps else None, what="overflow guards")
            c.require(fits is True or (traps and fits is None), key + ":fits", f"{f['p']}: {x} {op} {y}: a result is returned on a path that does not establish it fits {t}", f, what="overflow guards")
            if op == "Divide":
                c.require(z is False or (t not in WIDTH and z is False), key + ":zero", f"{f['p']}: {x} / {y}: a quotient is returned on a path where the divisor may be zero", f, what="zero divisors")
        elif need_ok:
            if op == "Divide" and z is True:
                c.require("Zero" in show(v) or "zero" in show(v), key + ":zero-error", f"{f['p']}: {x} / {y}: a zero divisor must be reported as division by zero, not {show(v)}", f, what="zero divisors")
            else:
                c.require(fits is False, key + ":err", f"{f['p']}: {x} {op} {y}: an error ({show(v)}) is returned on a path where the result may fit {t}", f, what="arithmetic paths")
    if need_ok:
        c.require(nok > 0, key + ":ok", f"{f['p']}: {x} {op} {y} never yields a value", f, what="arithmetic paths")


def strip_cast(v, ty):
    """a cast to the same integer type of a value established to be in range"""
    while v.k == "cast" and v.a[0] == ty and ty[0] == "i":
        v = v.a[1]
    return v


def arithmetic(c):
    c.rule_text = ("For each operator and each ordered pair of numeric operand types: every path of ArithmeticExpression::evaluate that returns a value returns exactly the operation on both "
                   "operands in the wider type, under a path condition that rules out overflow and a zero divisor, with no unchecked integer operation on the way; error paths are exactly the complement. "
                   "The same for the value arithmetic used by aggregates on operands of one type.")
    ty = ARITH + "ArithmeticExpression"
    ops = c.variants(ARITH + "ArithmeticOp")
    for m in ("evaluate", "evaluate_join"):
        f = c.P.method(EXPR_OPS, ty, m)
        for op in ops:
            if op not in CHK:
                c.violation("operator:" + op, f"arithmetic operator {op} has no specified meaning")
                continue
            for x in NUMERIC:
                for y in NUMERIC:
                    s, mem = cell(c.obj(ty, "self", op=unit(ARITH + "ArithmeticOp", op)), "self")

                    def icpt(it, st, p, r, u, args, line):
                        if p.startswith(EXPR_OPS + "::evaluate"):
                            w = show(it.deref(st, args[0])) if args[0].k == "ref" else show(args[0])
                            if "[0]" in w:
                                return [(st, ok(tagged(c, x, "a")))]
                            if "[1]" in w:
                                return [(st, ok(tagged(c, y, "b")))]
                    check_arith(c, c.explore(f, [s], mem, intercept=icpt), f, op, x, y, f"{m}:{op}:{x}:{y}", True)
    for m, op in (("add", "Add"), ("subtract", "Subtract"), ("multiply", "Multiply"), ("divide", "Divide")):
        f = c.P.method(TYPE, VALUE, m)
        for x in NUMERIC:
            for y in NUMERIC:
                rs, mem = two(c, x, y)
                check_arith(c, c.explore(f, rs, mem, panics=True), f, op, x, y, f"{m}:{x}:{y}", x == y)
    c.floor("arithmetic paths", 400)
    c.floor("overflow guards", 300)
    c.floor("zero divisors", 100)


# ------------------------------------------------------------------------------------------------ V05
def reps(lo, hi):
    return [lo - 2.0, lo - 1.5, lo - 1.0, lo - 0.5, float(lo), lo + 0.5, -1.5, -0.5, 0.0, 0.5, 1.5, hi - 0.5, float(hi), hi + 0.5, hi + 1.0, hi + 1.5, hi + 3.0,
            float("inf"), float("-inf"), float("nan")]


def fev(v, env):
    """value of a threshold expression at a representative"""
    import math
    if v in env:
        return env[v]
    if v.k == "i":
        return v.a[0]
    if v.k == "f":
        import struct
        return struct.unpack("<d", struct.pack("<Q", v.a[0]))[0] if v.a[1] == "f64" else struct.unpack("<f", struct.pack("<I", v.a[0]))[0]
    if v.k == "cast" and v.a[0] in ("f64", "f32"):
        x = fev(v.a[1], env)
        return None if x is None else float(x)
    if v.k == "pure" and v.a[0] in ("trunc", "floor", "ceil", "is_nan", "is_finite", "abs", "is_infinite"):
        x = fev(v.a[1][0], env)
        if x is None:
            return None
        if v.a[0] == "is_nan":
            return int(math.isnan(x))
        if v.a[0] == "is_finite":
            return int(math.isfinite(x))
        if v.a[0] == "is_infinite":
            return int(math.isinf(x))
        if math.isnan(x) or math.isinf(x):
            return abs(x) if v.a[0] == "abs" else x
        return float({"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "abs": abs}[v.a[0]](x))
    if v.k == "fcmp":
        x, y = fev(v.a[1], env), fev(v.a[2], env)
        if x is None or y is None:
            return None
        return int({"Lt": x < y, "Le": x <= y, "Eq": x == y}[v.a[0]])
    if v.k == "not":
        x = fev(v.a[0], env)
        return None if x is None else int(not x)
    if v.k == "op" and v.a[0] in ("Add", "Sub"):
        x, y = fev(v.a[1], env), fev(v.a[2], env)
        return None if x is None or y is None else x + y if v.a[0] == "Add" else x - y
    return None


def admits(o, env):
    """does the path condition admit the representative (None: undetermined facts count as admitting)"""
    for t, (lo, hi, ex) in o.facts.items():
        x = fev(t, env)
        if x is None:
            continue
        if (lo is not None and x < lo) or (hi is not None and x > hi) or x in ex:
            return False
    return True


def casts(c):
    c.rule_text = ("Value::cast_to between numeric types and booleans: every path returning a value returns one of the target type whose payload is the operand converted, under a condition that bounds it "
                   "to the target's range; errors are returned only outside that range. Integer bounds are decided by intervals, floating bounds at the representatives of the regions the thresholds delimit. NULL casts to NULL.")
    f = c.P.get(VALUE + "::cast_to")
    tf = [x[0] for x in c.P.enum(VALUE)["variants"][0][2] if x[1] == TID][0]

    def outs(x, y):
        r, mem = cell(tagged(c, x, "a"), "a")
        return c.explore(f, [r, unit(TID, y)], mem)
    for x in NUMERIC + ("Boolean",):
        for y in NUMERIC + ("Boolean",):
            if x == y:
                continue
            nok = 0
            for o in outs(x, y):
                v = o.value
                okp = v.k == "adt" and v.a[1] == "Ok"
                a = sym("a")
                key = f"{x}->{y}"
                if x in WIDTH and y in WIDTH:
                    L, H = int_range(y)
                    sl, sh = int_range(x)
                    lo, hi, _ = o.interp.rng(o.state, a)
                    lo = sl if lo is None else lo
                    hi = sh if hi is None else hi
                    inr, outr = L <= lo and hi <= H, hi < L or lo > H
                elif x in ("Float", "Decimal") and y in WIDTH:
                    L, H = int_range(y)
                    import math
                    ad = [z for z in reps(L, H) if admits(o, {a: z})]
                    good = [z for z in ad if not math.isnan(z) and not math.isinf(z) and L <= math.trunc(z) <= H]
                    inr, outr = len(good) == len(ad), not good
                    if y == "BigInt":  # the edge is not representable: 2^63 as f64 is out of range
                        inr = all(z in good or z < 9.3e18 for z in ad) and not any(math.isnan(z) or math.isinf(z) or z >= 2.0**63 or z < -2.0**63 for z in ad)
                        outr = not [z for z in ad if not math.isnan(z) and -2.0**63 <= z < 2.0**63]
                else:
                    inr, outr = True, False
                if okp:
                    nok += 1
                    p = o.interp.payload(v, "Ok")
                    got, tag = o.interp.proj(p, (".", val_field(c))), o.interp.proj(p, (".", tf))
                    c.require(got.k == "adt" and got.a[1] == y and tag.k == "adt" and tag.a[1] == y, key + ":type", f"cast {x} to {y} gives {show(got)} tagged {show(tag)}", f, what="cast paths")
                    if got.k != "adt" or not got.a[2]:
                        continue
                    pv = got.a[2][0][1]
                    core = pv
                    while core.k in ("cast", "conv") or (core.k == "pure" and core.a[0] == "trunc"):
                        core = core.a[1][0] if core.k == "pure" else core.a[-1]
                    if x == "Boolean":
                        b = o.interp.decide(o.state, a)
                        want = None if b is None else float(b)
                        have = pv if b is None else fev(pv, {a: b})
                        good = (have is not None and want is not None and have == want) or (b is None and core is a)
                    elif y == "Boolean":
                        b = pv.a[0] if pv.k == "i" else None
                        if x in WIDTH:
                            z = o.interp.decide(o.state, o.interp.cmp("Eq", a, I(0)))
                            good = (b is not None and z is not None and bool(b) != z) or (b is None and pv is o.interp.cmp("Ne", a, I(0)))
                        else:
                            good = b is None and all(fev(pv, {a: z}) == int(z != 0) for z in (0.0, 1.0, -1.0, 0.5)) or (b is not None and all(bool(b) == (z != 0) for z in (0.0, 1.0, -1.0, 0.5) if admits(o, {a: z})))
                    else:
                        good = core is a
                    c.require(good, key + ":value", f"cast {x} a to {y} gives {show(pv)}", f, what="cast paths")
                    c.require(inr, key + ":range", f"cast {x} to {y}: a value is returned on a path where the operand may be outside {y}'s range", f, what="range guards")
                else:
                    c.require(outr, key + ":err", f"cast {x} to {y}: an error is returned on a path where the operand may be representable", f, what="cast paths")
            c.require(nok > 0, f"{x}->{y}:ok", f"cast {x} to {y} never succeeds", f, what="cast paths")
    for x in c.variants(VAL):
        if x in ("Struct",):
            continue
        t = TAG.get(x, x)
        for o in outs(x, t):
            p = o.interp.payload(o.value, "Ok") if o.value.a[1] == "Ok" else None
            c.require(p is not None and p is tagged(c, x, "a"), f"same:{x}", f"cast of {x} to its own type gives {show(o.value)}", f, what="cast paths")
    for y in c.variants(TID):
        if y == "Invalid":
            continue
        for o in outs("Null", y):
            p = o.interp.payload(o.value, "Ok") if o.value.a[1] == "Ok" else None
            c.require(p is not None and o.interp.proj(p, (".", val_field(c))) is val("Null"), f"null->{y}", f"cast of NULL to {y} gives {show(o.value)}", f, what="cast paths")
    c.floor("cast paths", 100)
    c.floor("range guards", 40)


# ------------------------------------------------------------------------------------------------ V06
def args_of(v):
    return {x for x in subterms(v) if x.k == "arg"}


def known_equal(o, x, y, depth=0):
    if x is y:
        return True
    if any(o.interp.decide(o.state, mk(k, *sorted((x, y)))) is True for k in ("eq", "beq")):
        return True
    if o.interp.decide(o.state, o.interp.cmp("Eq", x, y)) is True:
        return True
    if x.k in ("adt", "ref") or depth > 6:
        pass
    if x.k == y.k and len(x.a) == len(y.a) and x.k != "arg":
        return all(known_equal(o, p, q, depth + 1) if isinstance(p, V) and isinstance(q, V) else
                   (isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) and all(
                       known_equal(o, r, s, depth + 1) if isinstance(r, V) and isinstance(s, V) else same_key(r, s) for r, s in zip(p, q)))
                   or same_key(p, q) for p, q in zip(x.a, y.a))
    return False


def same_key(p, q):
    if isinstance(p, tuple) and isinstance(q, tuple) and p and p[0] == "H" and q[0] == "H":
        return True
    return p == q


def hash_eq(c):
    c.rule_text = ("For each value variant: under every path condition on which PartialEq answers `equal` for two values, the sequences of terms Hash feeds for the two values agree "
                   "(each pair is identical or established equal by that condition).")
    E, H = c.P.method("core::cmp::PartialEq", VALUE, "eq"), c.P.method("core::hash::Hash", VALUE, "hash")

    def icpt(it, st, p, r, u, args, line):
        if p.endswith("Hash::hash"):
            it.event(st, "call", "HASH", (it.deref(st, args[0]),), UNIT, line)
            return [(st, UNIT)]
    tagf = [f[0] for f in c.P.enum(VALUE)["variants"][0][2] if f[1] == TID]
    for x in c.variants(VAL):
        for y in c.variants(VAL):
            rs, mem = two(c, x, y)
            for k, (n, r) in enumerate(zip("ab", rs)):   # any type tags
                v = mem[r.a[0]]
                mem[r.a[0]] = adt(v.a[0], v.a[1], tuple((f, sym("tag_" + n) if f in tagf else z) for f, z in v.a[2]))
            n = 0
            for o in c.explore(E, rs, mem):
                if not (o.kind == "return" and (o.value is TRUE or (o.value.k != "i"))):
                    continue
                if o.value.k != "i":
                    o2 = o.state.copy()
                    o.interp.assume(o2, o.value, True)
                    facts = o2.facts
                else:
                    facts = o.facts
                n += 1
                seqs = []
                for r in rs:
                    hs = c.explore(H, [r, sym("hasher")], dict(o.mem), dict(facts), intercept=icpt)
                    seqs.append(sorted(([e.args[0] for e in h.events if e.name == "HASH"] for h in hs), key=len))
                o.facts = facts
                o.state.facts = facts
                a, b = seqs
                good = len(a) == len(b) and all(len(p) == len(q) and all(known_equal(o, s, t) for s, t in zip(p, q)) for p, q in zip(a, b))
                c.require(good, f"hash:{x}:{y}" if x != y else f"hash:{x}", f"{x} and {y} values that compare equal can hash differently: {[[show(z) for z in p] for p in a][:2]} vs {[[show(z) for z in p] for p in b][:2]} "
                          f"when {[show(k) for k in facts][:4]}", H, what="equality paths")
            c.require(n > 0 or x != y, f"eq:{x}:{y}", f"two {x} values never compare equal", E, what="variant pairs")
    c.floor("equality paths", 25)
    c.floor("variant pairs", 400)
