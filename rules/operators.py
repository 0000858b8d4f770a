"""Query operators: the rows an executor hands out, given the rows below it and the outcome of its expressions."""
import itertools
from fractions import Fraction
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last, Session
from prog import AnchorError
from rules.values import VAL, VALUE, TID, val, val_field

X = "sql::execution::executors::"
PL = "sql::execution::plans::"
EX = "sql::execution::expressions::"
EXEC = X + "abstract_executor::AbstractExecutor"
PLAN = PL + "abstract_plan::PlanNode"
OPS = EX + "abstract_expression::ExpressionOps"
EXPRESSION = EX + "abstract_expression::Expression"
TUPLE = "storage::table::tuple::Tuple"
RID = "common::rid::RID"
COL = "catalog::column::Column"


class Below:
    """a source of rows: each item is a row, or the word "fails" """

    def __init__(self, q, name, cols, rows):
        self.q, self.name, self.cols, self.rows = q, name, cols, rows
        self.at, self.inits, self.asked_after_end, self.early = 0, 0, 0, 0


class Query:
    """one executor above scripted sources, with expressions whose outcome is scripted"""

    def __init__(self, c):
        self.c = c
        self.s = Session(c, intercept=self.icept, inline_drop=lambda u: True)
        self.below, self.ev = {}, {}
        self.vf = val_field(c)
        self.plans = {}
        self.read = None

    # ---- values
    def value(self, x, tid=None):
        """None is NULL; ints are Integers, bools Booleans; ("Variant", payload) anything else"""
        if x is None:
            v, t = val("Null"), tid or "Invalid"
        elif isinstance(x, bool):
            v, t = val("Boolean", TRUE if x else FALSE), "Boolean"
        elif isinstance(x, int):
            v, t = val("Integer", I(x)), "Integer"
        else:
            v, t = val(x[0], x[1] if isinstance(x[1], V) else mk("s", x[1]) if isinstance(x[1], str) else I(x[1])), tid or {"VarLen": "VarChar"}.get(x[0], x[0])
        return self.c.obj(VALUE, "v", **{self.vf: v, self.tf(): unit(TID, t)})

    def tf(self):
        fs = [f for f in self.c.P.enum(VALUE)["variants"][0][2] if f[1] == TID]
        if len(fs) != 1:
            raise AnchorError("Value has no single type tag")
        return fs[0][0]

    def plain(self, v):
        """back again"""
        it = self.s.o.interp
        while v.k == "ref":
            v = self.s.load(v)
        x = it.proj(v, (".", self.vf))
        if x.k != "adt":
            return ("?", show(x))
        if x.a[1] == "Null":
            return None
        if x.a[1] == "Boolean":
            b = x.a[2][0][1]
            return bool(b.a[0]) if b.k == "i" else ("?", show(b))
        if x.a[1] == "Integer" and x.a[2][0][1].k == "i":
            return x.a[2][0][1].a[0]
        p = x.a[2][0][1] if x.a[2] else None
        return (x.a[1], p.a[0] if p is not None and p.k in ("i", "s") else show(p) if p is not None else None)

    def make(self, path, *a):
        k, v = self.s.call(path if isinstance(path, dict) else self.c.P.get(path), *a)
        if k != "return":
            raise AnchorError(f"{path} does not return on ordinary arguments")
        return v

    def schema(self, cols):
        """cols: [(name, type)]"""
        return self.make("catalog::schema::Schema::new", L(*[self.make(COL + "::new", self.s.alloc(mk("s", n)), unit(TID, t)) for n, t in cols]))

    def rid(self, n):
        return self.make(RID + "::new", I(7), I(n))

    def tuple(self, vals, n, sch):
        return self.make(TUPLE + "::new", self.s.alloc(L(*[self.value(v) for v in vals])), self.s.alloc(sch), self.rid(n))

    def source(self, name, cols, rows):
        """a child executor"""
        b = Below(self, name, cols, rows)
        b.schema = self.s.alloc(self.schema(cols))
        b.out = []
        for i, r in enumerate(rows):
            b.out.append(None if r == "fails" else self.s.alloc(self.tuple(r, 10 * len(self.below) + i, self.s.load(b.schema) if False else self.s.mem[b.schema.a[0]])))
        self.below[name] = b
        return self.s.alloc(adt("CHILD", name, ()))

    def expr(self, name, f):
        """an expression; f(list of the row's values) -> value or "fails" """
        self.ev[name] = f
        return self.s.alloc(adt(EXPRESSION, "Arithmetic", (("0", adt("EXPR", name, ())),)))

    def column(self, name, t="Integer"):
        return self.make(COL + "::new", self.s.alloc(mk("s", name)), unit(TID, t))

    def colref(self, i, name, t="Integer", side=0):
        return self.s.alloc(adt(EXPRESSION, "ColumnRef", (("0", self.make(EX + "column_value_expression::ColumnRefExpression::new", I(side), I(i), self.column(name, t), L())),)))

    def child_plan(self, *chs):
        """a plan node whose executors are the given sources, in turn"""
        n = f"plan{len(self.plans)}"
        self.plans[n] = list(chs)
        return adt(PLAN, "Values", (("0", adt("PLAN", n, ())),))

    # ---- stand-ins
    def icept(self, it, st, p, r, u, args, line):
        q = r or p
        n = last(p)
        if p.startswith(EXEC + "::") or q.startswith(EXEC + "::"):
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k != "adt" or x.a[0] != "CHILD":
                return None
            b = self.below[x.a[1]]
            if n == "init":
                b.inits += 1
                return [(st, UNIT)]
            if n == "get_output_schema":
                return [(st, b.schema)]
            if n == "next":
                if not b.inits:
                    b.early += 1
                    return [(st, ok(NONE))]
                if b.at >= len(b.rows):
                    return [(st, ok(NONE))]
                i = b.at
                b.at += 1
                if b.rows[i] == "fails":
                    return [(st, err(sym("source fails")))]
                t = b.out[i]
                return [(st, ok(some(tup(t, it.proj(it.deref(st, t), (".", self.rf()))))))]
            return [(st, sym("context"))]
        if p.startswith(OPS + "::"):
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k == "adt" and x.a[0] == EXPRESSION and x.a[2]:
                x = x.a[2][0][1]
            if x.k != "adt" or x.a[0] != "EXPR":
                return None
            f = self.ev[x.a[1]]
            if n == "evaluate":
                y = f(self.row(it, st, args[1]))
            elif n == "evaluate_join":
                y = f(self.row(it, st, args[1]), self.row(it, st, args[3]))
            elif n == "get_return_type":
                return [(st, self.cols[x.a[1]])]
            else:
                return None
            if isinstance(y, V):
                return [(st, y)]
            return [(st, err(self.failure()) if y == "fails" else ok(self.value(y)))]
        if n == "create_executor" and args:
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k == "adt" and x.a[0] == PLAN and x.a[2] and x.a[2][0][1].k == "adt" and x.a[2][0][1].a[0] == "PLAN":
                chs = self.plans[x.a[2][0][1].a[1]]
                if not chs:
                    raise AnchorError(f"{p}: more scans of a child than rows")
                return [(st, ok(chs.pop(0)))]
        return None

    def failure(self):
        n, _, fs = next(v for v in self.c.P.enum("common::exception::ExpressionError")["variants"] if v[0] != "InvalidColumnIndex")
        return adt("common::exception::ExpressionError", n, tuple((f[0], sym("why")) for f in fs))

    def rf(self):
        fs = [f for f in self.c.P.enum(TUPLE)["variants"][0][2] if f[1] == RID]
        if len(fs) != 1:
            raise AnchorError("Tuple has no single row id")
        return fs[0][0]

    def row(self, it, st, t, read=None):
        while t.k == "ref":
            t = it.deref(st, t)
        vs = [f[0] for f in self.c.P.enum(TUPLE)["variants"][0][2] if VALUE in f[1]]
        v = it.proj(t, (".", vs[0]))
        while v.k == "ref":
            v = it.deref(st, v)
        return [read(self, x) if read else self.plain_in(it, st, x) for x in elems(v)]

    def plain_in(self, it, st, v):
        while v.k == "ref":
            v = it.deref(st, v)
        x = it.proj(v, (".", self.vf))
        if x.k != "adt":
            return ("?", show(x))
        if x.a[1] == "Null":
            return None
        p = x.a[2][0][1] if x.a[2] else None
        if x.a[1] == "Boolean" and p.k == "i":
            return bool(p.a[0])
        if x.a[1] == "Integer" and p.k == "i":
            return p.a[0]
        return (x.a[1], p.a[0] if p is not None and p.k in ("i", "s") else show(p) if p is not None else None)

    # ---- running
    def run(self, ty, ex, limit=12, init=True):
        """the rows the executor hands out, or what went wrong after them"""
        me = self.s.alloc(ex)
        P = self.c.P
        rows = []
        if init:
            k, v = self.s.call(P.method(EXEC, ty, "init"), me)
            if k != "return":
                return rows, "init " + k
        f = P.method(EXEC, ty, "next")
        end = 0
        while end < 2 and len(rows) < limit:
            k, v = self.s.call(f, me)
            if k != "return":
                return rows, k
            if v.k != "adt" or v.a[0] != RESULT:
                return rows, "unknown: " + show(v)[:80]
            if v.a[1] == "Err":
                return rows, "failure"
            o = v.a[2][0][1]
            if o.a[1] == "None":
                end += 1
            else:
                if end:
                    return rows, "a row after the end"
                it = self.s.o.interp
                t = o.a[2][0][1]
                st = self.s.o.state
                r = it.proj(t, (".", "1"))
                rows.append((tuple(self.row(it, st, it.proj(t, (".", "0")), self.read)), r))
        return rows, "end" if end == 2 else "no end"


# ------------------------------------------------------------------------------------------------ Q01
def script(n, width=1, fails=True):
    """every source of up to n rows, perhaps failing at some point"""
    for k in range(n + 1):
        yield [[10 * i + j for j in range(width)] for i in range(1, k + 1)]
        if fails:
            yield [[10 * i + j for j in range(width)] for i in range(1, k + 1)] + ["fails"]


def ints(n):
    return [(f"c{i}", "Integer") for i in range(n)]


def filters(c, job):
    src, out = job
    Q = Query(c)
    ty = X + "filter_executor::FilterExecutor"
    ch = Q.source("below", ints(1), src)
    e = Q.expr("predicate", lambda row: out[row[0] // 10 - 1])
    sch = Q.schema(ints(1))
    plan = Q.make(PL + "filter_plan::FilterNode::new_where", sch, I(1), mk("s", "t"), e, L())
    ex = Q.make(ty + "::new", ch, sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(ty, ex)
    want, wend = [], "end"
    for r in src:
        if r == "fails" or out[r[0] // 10 - 1] == "fails":
            wend = "failure"
            break
        if out[r[0] // 10 - 1] is True:
            want.append(tuple(r))
    check(c, "filter", (src, out), rows, end, want, wend)


def check(c, what, job, rows, end, want, wend, fn=None):
    got = [r for r, _ in rows]
    c.require(got == want and end == wend, f"{what}:{job}", f"{what} over {job}: the rows are {got}, then {end}; they should be {want}, then {wend}", fn, what=f"runs of {what}")


def plain(src, keep=lambda r: [tuple(r)]):
    """(rows, how it ends) of passing the source through"""
    want = []
    for r in src:
        if r == "fails":
            return want, "failure"
        want += keep(r)
    return want, "end"


def projects(c, src):
    n = sum(r != "fails" for r in src)
    ty = X + "projection_executor::ProjectionExecutor"
    for bad in [None] + [(i, j, k) for i in range(n) for j in (0, 1) for k in ("fails",)]:
        Q = Query(c)
        ch = Q.source("below", [("a", "Integer"), ("b", "Integer")], src)

        def f(j):
            def g(row):
                if bad and bad[:2] == (row[0] // 10 - 1, j):
                    return "fails"
                return 1000 * (j + 1) + row[0]
            return g
        sch = Q.schema([("x", "Integer"), ("y", "Integer"), ("b", "Integer")])
        es = L(Q.expr("e0", f(0)), Q.expr("e1", f(1)), Q.colref(1, "b"))
        plan = Q.make(PL + "projection_plan::ProjectionNode::new", sch, es, L())
        ex = Q.make(ty + "::new", ch, sym("context"), Q.s.alloc(plan))
        rows, end = Q.run(ty, ex)
        want, wend = [], "end"
        for r in src:
            if r == "fails" or bad and bad[0] == r[0] // 10 - 1:
                wend = "failure"
                break
            want.append((1000 + r[0], 2000 + r[0], r[1]))
        check(c, "projection", (src, bad), rows, end, want, wend)


def limits(c, src):
    for what, n in itertools.product(("limit", "offset"), range(5)):
        Q = Query(c)
        ch = Q.source("below", ints(1), src)
        Ty = what.capitalize()
        ty = X + f"{what}_executor::{Ty}Executor"
        plan = Q.make(PL + f"{what}_plan::{Ty}Node::new", I(n), Q.schema(ints(1)), L())
        ex = Q.make(ty + "::new", ch, sym("context"), Q.s.alloc(plan))
        rows, end = Q.run(ty, ex)
        want, wend = plain(src)
        if what == "limit":
            if len(want) >= n:
                want, wend = want[:n], "end"
        else:
            want = want[n:]
        check(c, what, (src, n), rows, end, want, wend)


def lists(c, n):
    ty = X + "values_executor::ValuesExecutor"
    for bad in [None] + list(itertools.product(range(n), range(2))):
        Q = Query(c)
        sch = Q.schema([("a", "Integer"), ("b", "Boolean")])
        es = [[Q.expr(f"e{i}{j}", lambda row, i=i, j=j: "fails" if bad == (i, j) else (10 * i if j == 0 else i % 2 == 0)) for j in range(2)] for i in range(n)]
        plan = Q.make(PL + "values_plan::ValuesNode::new", sch, L(*[L(*r) for r in es]), L())
        ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan))
        rows, end = Q.run(ty, ex)
        m = bad[0] if bad else n
        check(c, "values", (n, bad), rows, end, [(10 * i, i % 2 == 0) for i in range(m)], "failure" if bad else "end")


def streams(c):
    jobs = []
    for src in script(3):
        n = sum(r != "fails" for r in src)
        for out in itertools.product((True, False, None, "fails"), repeat=n):
            if "fails" in out and out.index("fails") < n - 1:
                continue
            jobs.append((src, out))
    c.parallel(jobs, filters)
    c.parallel(script(3, 2), projects)
    c.parallel(script(4), limits)
    c.parallel(range(4), lists)


# ------------------------------------------------------------------------------------------------ Q02
def rank(v):
    return (0, 0) if v is None else (1, v)


def orders(c, job):
    """job: (rows of (key, key, tag), directions, failing expression or None, kind, k)"""
    kind, src, dirs, bad, k = job
    Q = Query(c)
    cols = ints(3)
    ch = Q.source("below", cols, src)

    def f(j):
        return lambda row: "fails" if bad == (row[2], j) else row[j]
    es = [Q.expr(f"k{j}", f(j)) for j in range(len(dirs))]
    sch = Q.schema(cols)
    S = PL + "sort_plan::"
    if kind == "sort":
        ty = X + "sort_executor::SortExecutor"
        specs = L(*[Q.make(S + "OrderBySpec::new", e, unit(S + "OrderDirection", d)) for e, d in zip(es, dirs)])
        plan = Q.make(S + "SortNode::new", sch, specs, L())
        ex = Q.make(ty + "::new", ch, sym("context"), Q.s.alloc(plan))
    elif kind == "top":
        ty = X + "topn_executor::TopNExecutor"
        plan = Q.make(PL + "topn_plan::TopNNode::new", sch, L(*es), I(k), L(Q.child_plan(ch)))
        ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan))
    else:
        ty = X + "topn_per_group_executor::TopNPerGroupExecutor"
        plan = Q.make(PL + "topn_per_group_plan::TopNPerGroupNode::new", I(k), L(*es), L(Q.expr("g", lambda row: "fails" if bad == (row[2], "g") else row[1])), sch, L(Q.child_plan(ch)))
        ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(ty, ex)
    got = [r for r, _ in rows]
    ins, wend = plain(src)
    if bad and any(r[2] == bad[0] for r in ins):
        wend = "failure"
    word = {"sort": "sort", "top": "top-N", "group": "top-N per group"}[kind]
    key = lambda r: tuple(rank(r[j]) if d == "Asc" else (-rank(r[j])[0], -rank(r[j])[1]) for j, d in enumerate(dirs))
    say = f"{word} of {src} by {dirs}" + (f", keeping {k}" if k is not None else "") + (f", expression failing at {bad}" if bad else "")
    if wend == "failure":
        good = end == "failure"
        need = "a failure must be reported"
    else:
        good = end == "end" and len(set(got)) == len(got) and set(got) <= set(ins)
        need = "every row once, in order"
        if kind == "group":
            gs = [g for g, _ in itertools.groupby(got, key=lambda r: r[1])]
            good = good and len(gs) == len(set(gs))
            parts = [([r for r in got if r[1] == g], [r for r in ins if r[1] == g]) for g in {r[1] for r in ins}]
            need = "the greatest of each group, greatest first"
        else:
            parts = [(got, ins)]
        for a, b in parts:
            w = sorted(map(key, b))
            if k is not None:
                w = w[:k]
            good = good and [key(r) for r in a] == w
    c.require(good, f"{kind}:{job[1:]}", f"{say}: the rows are {got}, then {end}; {need}", None, what=f"runs of {word}")


def ordering(c):
    jobs = []
    V = (None, 1, 2)
    tag = lambda rows: [[*r, 100 + i] for i, r in enumerate(rows)]
    for n in range(4):
        for ks in itertools.product((None, 1, 2, 3) if n == 3 else V, repeat=n):
            src = tag([(k, 0) for k in ks])
            for d in ("Asc", "Desc"):
                jobs.append(("sort", src, (d,), None, None))
            for k in range(0, n + 2):
                jobs.append(("top", src, ("Desc",), None, k))
    for ks in itertools.permutations((4, 1, 3, 2)):
        src = tag([(k, 0) for k in ks])
        jobs += [("sort", src, (d,), None, None) for d in ("Asc", "Desc")]
        jobs += [("top", src, ("Desc",), None, k) for k in (1, 2, 3)]
    pairs2 = [(a, b) for a in (None, 1) for b in (None, 1, 2)]
    for ps in itertools.product(pairs2, repeat=2):
        for ds in itertools.product(("Asc", "Desc"), repeat=2):
            jobs.append(("sort", tag(ps), ds, None, None))
        jobs.append(("top", tag(ps), ("Desc", "Desc"), None, 1))
    for gs in itertools.product((None, 1, 2), repeat=3):
        for ks in ((1, 2, 3), (3, None, 2), (2, 2, 1)):
            for k in (0, 1, 2):
                jobs.append(("group", tag(list(zip(ks, gs))), ("Desc",), None, k))
    for kind, ds in (("sort", ("Asc",)), ("sort", ("Desc", "Asc")), ("top", ("Desc",)), ("group", ("Desc",))):
        k = None if kind == "sort" else 2
        for n in range(3):
            src = tag([(5 - i, i) for i in range(n)])
            jobs.append((kind, src + ["fails"], ds, None, k))
            for i in range(n):
                if n > 1 or kind != "sort":
                    jobs.append((kind, src, ds, (100 + i, 0), k))
                    if kind == "group":
                        jobs.append((kind, src, ds, (100 + i, "g"), k))
    c.parallel(jobs, orders)


# ------------------------------------------------------------------------------------------------ Q03
AGG = EX + "aggregate_expression::"
AGGS = ("CountStar", "Count", "Sum", "Min", "Max", "Avg")
MAXI = {"TinyInt": 127, "SmallInt": 32767, "Integer": 2**31 - 1, "BigInt": 2**63 - 1}


def wrap(kind, x):
    return x if kind == "Integer" or x is None else (kind, x)


def number(v):
    """the rational a term of known numbers stands for"""
    if v.k == "i":
        return Fraction(v.a[0])
    if v.k == "cast":
        return number(v.a[-1])
    if v.k == "f":
        return Fraction(v.a[0])
    if v.k == "op" and v.a[0] in ("Add", "Sub", "Mul", "Div"):
        a, b = number(v.a[1]), number(v.a[2])
        if a is None or b is None or v.a[0] == "Div" and b == 0:
            return None
        return {"Add": a + b, "Sub": a - b, "Mul": a * b}[v.a[0]] if v.a[0] != "Div" else a / b
    return None


def quantity(Q, v):
    """NULL is None; a number of any type is a fraction"""
    it = Q.s.o.interp
    x = it.proj(v, (".", Q.vf))
    if x.k == "adt" and x.a[1] == "Null":
        return None
    n = number(x.a[2][0][1]) if x.k == "adt" and len(x.a[2]) == 1 else None
    return "?" if n is None else n


def aggregated(a, vals, nrows):
    """the acceptable results"""
    vs = [v for v in vals if v is not None]
    if a == "CountStar":
        return {nrows}
    if a == "Count":
        return {len(vs)}
    if a == "Sum":
        return {sum(vs)} if vs else {0, None}
    if not vs:
        return {None}
    return {min(vs)} if a == "Min" else {max(vs)} if a == "Max" else {Fraction(sum(vs), len(vs))}


def group(c, job):
    """job: (rows of (group columns..., argument), number of group columns, aggregates, failing row or None, type of the argument)"""
    src, by, aggs, bad, kind = job
    Q = Query(c)
    ty = X + "aggregation_executor::AggregationExecutor"
    cols = [(f"g{i}", "Integer") for i in range(by)] + [("v", kind), ("tag", "Integer")]
    ch = Q.source("below", cols, [r if r == "fails" else [*r[:-1], wrap(kind, r[-1]), 100 + i] for i, r in enumerate(src)])
    f = lambda row: "fails" if bad is not None and row[-1] == 100 + bad else row[-2]
    es = []
    for a in aggs:
        args = L() if a == "CountStar" else L(Q.expr("v", f))
        es.append(Q.s.alloc(adt(EXPRESSION, "Aggregate", (("0", Q.make(AGG + "AggregateExpression::new", unit(AGG + "AggregationType", a), args, Q.column(a), mk("s", a))),))))
    plan = Q.make(PL + "aggregation_plan::AggregationPlanNode::new", L(), L(*[Q.colref(i, f"g{i}") for i in range(by)]), L(*es))
    ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan), ch)
    Q.read = quantity
    rows, end = Q.run(ty, ex)
    got = [tuple(r) for r, _ in rows]
    fn = c.P.method(EXEC, ty, "next")
    say = f"{', '.join(aggs)} over {src}" + (f" grouped by the first {by}" if by else "") + (f", argument failing for row {bad}" if bad is not None else "") + (f" ({kind})" if kind != "Integer" else "")
    if "fails" in src or bad is not None and set(aggs) - {"CountStar"}:
        c.require(end == "failure", f"agg:{job}", f"{say}: the rows are {show_rows(got)}, then {end}; the failure must be reported", fn, what="runs of aggregation")
        return
    groups = {}
    for r in src:
        groups.setdefault(tuple(r[:by]), []).append(r[-1])
    if not by:
        groups.setdefault((), [])
    over = any(abs(sum(v for v in vs[:i + 1] if v is not None)) > MAXI[kind] for vs in groups.values() for i in range(len(vs)))
    if over and end == "failure":
        good = True  # out of range, and said so
    else:
        good = end == "end" and len(got) == len(groups) and {r[:by] for r in got} == set(groups)
        for r in got if good else ():
            vs = groups[r[:by]]
            good = good and all(x in aggregated(a, vs, len(vs)) for a, x in zip(aggs, r[by:]))
        ks = [tuple(map(rank, r[:by])) for r in got]
        good = good and ks in (sorted(ks), sorted(ks, reverse=True))
    want = {k: [min(aggregated(a, vs, len(vs)), key=str) for a in aggs] for k, vs in groups.items()}
    c.require(good, f"agg:{job}", f"{say}: the rows are {show_rows(got)}, then {end}; they should be {show_rows([(*k, *v) for k, v in want.items()])} in the groups' order", fn, what="runs of aggregation")


def show_rows(rs):
    return "[" + ", ".join("(" + ", ".join("NULL" if x is None else str(x) for x in r) + ")" for r in rs) + "]"


def distinct(c, job):
    src, cols = job
    Q = Query(c)
    ty = X + "distinct_executor::DistinctExecutor"
    ch = Q.source("below", cols, src)
    ex = Q.make(ty + "::new", Q.schema(cols), ch)
    rows, end = Q.run(ty, ex)
    seen = []
    for r in src:
        if r != "fails" and tuple(r) not in seen:
            seen.append(tuple(r))
    check(c, "distinct", src, rows, end, seen, "failure" if "fails" in src else "end", c.P.method(EXEC, ty, "next"))


def grouping(c):
    """Q03: one row for each group, from all of its rows; one row for each distinct row"""
    jobs = []
    V = (None, -3, 5)
    for n in range(4):
        for vs in itertools.product(V, repeat=n):
            jobs.append(([(v,) for v in vs], 0, AGGS, None, "Integer"))
            for gs in itertools.product((None, 1, 2), repeat=n):
                if n < 3 or vs.count(None) == 1 or gs.count(None) != 1:
                    jobs.append(([(g, v) for g, v in zip(gs, vs)], 1, AGGS, None, "Integer"))
    for gs in itertools.product([(a, b) for a in (None, 1) for b in (None, 1, 2)], repeat=2):
        jobs.append(([(*g, i + 4) for i, g in enumerate(gs)], 2, ("Sum", "Avg"), None, "Integer"))
    for kind in ("TinyInt", "SmallInt", "Integer", "BigInt"):
        m = MAXI[kind]
        for vs in ((7,), (7, 8), (None, 7), (7, None, 9), (-4, 3, 3), (m, 0), (m, 1), (m, -1), (-m, -2), (m, 1, -1)):
            jobs.append(([(v,) for v in vs], 0, AGGS, None, kind))
            jobs.append(([(v % 2 if v is not None else 0, v) for v in vs], 1, AGGS[::-1], None, kind))
    for n in range(1, 4):
        src = [(i % 2, i) for i in range(n)]
        for a in AGGS:
            for bad in range(n):
                if a != "CountStar":
                    jobs.append((src, 1, (a,), bad, "Integer"))
                    jobs.append(([r[1:] for r in src], 0, (a,), bad, "Integer"))
        jobs.append((src[:-1] + ["fails"], 1, AGGS, None, "Integer"))
        jobs.append(([r[1:] for r in src[:-1]] + ["fails"], 0, AGGS, None, "Integer"))
    c.parallel(jobs, group)
    jobs = []
    I2 = ints(2)
    for n in range(4):
        for ks in itertools.product((None, -1, 0), repeat=n):
            jobs.append(([[k] for k in ks], ints(1)))
        if n < 3:
            for ks in itertools.product([(a, b) for a in (None, -1, 255) for b in (None, -1, 0)], repeat=n):
                jobs.append(([list(k) for k in ks], I2))
        jobs.append(([[i // 2] for i in range(n)] + ["fails"], ints(1)))
    for ks in itertools.product((True, False, None), repeat=3):
        jobs.append(([[k] for k in ks], [("b", "Boolean")]))
    for ks in itertools.product([(a, b) for a in ("", "a", "ab") for b in ("", "b", "ba")], repeat=2):
        jobs.append(([[("VarLen", x) for x in k] for k in ks], [("s", "VarChar"), ("t", "VarChar")]))
    c.parallel(jobs, distinct)
    c.floor("runs of aggregation", 500)
    c.floor("runs of distinct", 100)


# ------------------------------------------------------------------------------------------------ Q04
JOIN = "sqlparser::ast::query::JoinOperator"
KINDS = {"Join": "inner", "Inner": "inner", "Left": "left", "LeftOuter": "left", "Right": "right", "RightOuter": "right", "FullOuter": "full", "CrossJoin": "cross"}
STD_ENUM[JOIN] = [(n, i) for i, n in enumerate((*KINDS, "Semi", "LeftSemi", "RightSemi", "Anti", "LeftAnti", "RightAnti", "CrossApply", "OuterApply", "AsOf", "StraightJoin", "ArrayJoin", "LeftArrayJoin", "InnerArrayJoin"))]


def joined(kind, ls, rs, f, nl, nr):
    """the rows of a join; f(left row, right row) -> matches"""
    pairs = [(i, j) for i, l in enumerate(ls) for j, r in enumerate(rs) if kind == "cross" or f(l, r) is True]
    out = [tuple(ls[i]) + tuple(rs[j]) for i, j in pairs]
    if kind in ("left", "full"):
        out += [tuple(l) + (None,) * nr for i, l in enumerate(ls) if not any(p[0] == i for p in pairs)]
    if kind in ("right", "full"):
        out += [(None,) * nl + tuple(r) for j, r in enumerate(rs) if not any(p[1] == j for p in pairs)]
    return out


def jsort(rows):
    return sorted(rows, key=lambda r: tuple(map(rank, r)))


def settle(c, what, say, job, rows, end, want, fails, kind, fn):
    got = [r for r, _ in rows]
    if fails:
        c.require(end == "failure", f"{what}:{job}", f"{say}: the rows are {got}, then {end}; the failure must be reported", fn, what=f"runs of {what}")
    else:
        c.require(end == "end" and jsort(got) == jsort(want), f"{what}:{job}", f"{say}: the rows are {got}, then {end}; they should be {want}", fn, what=f"runs of {what}")


def loops(c, job):
    """job: (join operator, left rows, right rows, outcome of the predicate for each pair of values)"""
    op, ls, rs, table = job
    Q = Query(c)
    kind = KINDS[op]
    ty = X + "nested_loop_join_executor::NestedLoopJoinExecutor"
    L_, R_ = [("a", "Integer")], [("b", "Integer"), ("c", "Integer")]
    wide = [r if r == "fails" else [r, r + 100] for r in rs]
    narrow = [l if l == "fails" else [l] for l in ls]
    left = Q.source("left", L_, narrow)
    rights = [Q.source(f"right{i}", R_, wide) for i in range(len(ls) + 2)]
    f = lambda l, r: table[(l[0], r[0])]
    e = Q.expr("predicate", f)
    plan = Q.make(PL + "nested_loop_join_plan::NestedLoopJoinNode::new", Q.schema(L_), Q.schema(R_), e, adt(JOIN, op, (("0", sym("constraint")),)), L(), L(), L(Q.child_plan(left), Q.child_plan(*rights)))
    ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(ty, ex, limit=20)
    fn = c.P.method(EXEC, ty, "next")
    say = f"{op} of {ls} and {rs}" + ("" if kind == "cross" else f", the condition being {', '.join(f'{k}: {v}' for k, v in table.items())}")
    good_l, good_r = [x for x in narrow if x != "fails"], [x for x in wide if x != "fails"]
    fails = "fails" in ls or "fails" in rs and (ls or kind in ("right", "full")) or kind != "cross" and "fails" in table.values()
    if fails and end == "end" and "fails" in rs and not good_l and kind not in ("right", "full"):
        fails = False
    settle(c, "nested loop join", say, job, rows, end, joined(kind, good_l, good_r, f, 1, 2), fails, kind, fn)


def hashes(c, job):
    """job: (join operator, left rows of keys, right rows of keys, failing (side, row))"""
    op, ls, rs, bad = job
    Q = Query(c)
    kind = KINDS[op]
    ty = X + "hash_join_executor::HashJoinExecutor"
    n = max([len(x) for x in ls + rs if x != "fails"] or [1])
    cols = lambda p: [(f"{p}{i}", "Integer") for i in range(n + 1)]
    tagged = lambda xs, base: [x if x == "fails" else [*x, base + i] for i, x in enumerate(xs)]
    L_, R_ = tagged(ls, 100), tagged(rs, 200)
    left, right = Q.source("left", cols("l"), L_), Q.source("right", cols("r"), R_)
    key = lambda i: (lambda row: "fails" if bad == row[-1] else row[i])
    lk, rk = [L(*[Q.expr(f"{p}k{i}", key(i)) for i in range(n)]) for p in "lr"]
    e = Q.expr("predicate", lambda l, r: l[:n] == r[:n] and None not in l[:n])
    plan = Q.make(PL + "hash_join_plan::HashJoinNode::new", Q.schema(cols("l")), Q.schema(cols("r")), e, adt(JOIN, op, (("0", sym("constraint")),)), lk, rk, L())
    ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan), left, right)
    rows, end = Q.run(ty, ex, limit=20)
    fn = c.P.method(EXEC, ty, "next")
    say = f"{op} by hashing of {ls} and {rs}" + (f", the key of row {bad} failing" if bad else "")
    good_l, good_r = [x for x in L_ if x != "fails"], [x for x in R_ if x != "fails"]
    if kind != "inner" and end == "failure" and not rows:
        c.require(True, f"hash join:{job}", "", fn, what="runs of hash join")
        return
    f = lambda l, r: l[:n] == r[:n] and None not in l[:n]
    fails = "fails" in rs or "fails" in ls or any(r[-1] == bad for r in good_l + good_r)
    settle(c, "hash join", say, job, rows, end, joined(kind, good_l, good_r, f, n + 1, n + 1), fails, kind, fn)


def joins(c):
    jobs = []
    T3 = (True, False, None)
    for op in KINDS:
        for ls in ([], [1], [1, 2], [1, 1]):
            for rs in ([], [1], [1, 2], [1, 1], [1, 2, 1]):
                ps = sorted({(l, r) for l in ls for r in rs})
                if op == "CrossJoin":
                    jobs.append((op, ls, rs, {p: None for p in ps}))
                    continue
                for out in itertools.product(T3, repeat=len(ps)):
                    jobs.append((op, ls, rs, dict(zip(ps, out))))
                    for i in range(len(ps)):
                        if out[i] is True and out.count(None) == 0:
                            jobs.append((op, ls, rs, dict(zip(ps, out[:i] + ("fails",) + out[i + 1:]))))
                if len(rs) < 3:
                    for out in ((True,), (False,)):
                        jobs.append((op, ls + ["fails"], rs, dict.fromkeys(ps, out[0])))
                        jobs.append((op, ls, rs + ["fails"], dict.fromkeys(ps, out[0])))
    c.parallel(jobs, loops)
    jobs = []
    V = (None, 1, 2)
    for n, m in itertools.product(range(3), range(4)):
        for ls in itertools.product(V, repeat=n):
            for rs in itertools.product(V, repeat=m):
                if m < 3 or n == 1 and rs[0] == 1:
                    jobs.append(("Inner", [[x] for x in ls], [[x] for x in rs], None))
    two = [[1, 1], [1, 2], [1, None], [2, 1]]
    for ls in itertools.product(two, repeat=1):
        for rs in itertools.product(two, repeat=2):
            jobs.append(("Join", list(ls), list(rs), None))
    for op in KINDS:
        for ls, rs in (([[1], [2]], [[2], [2]]), ([[1]], [])):
            jobs.append((op, ls, rs, None))
    a, b = [[1], [1]], [[1], [2]]
    for bad in (100, 101, 200, 201):
        jobs.append(("Inner", a, b, bad))
    for n in range(3):
        jobs.append(("Inner", a[:n] + ["fails"], b, None))
        jobs.append(("Inner", a, b[:n] + ["fails"], None))
    c.parallel(jobs, hashes)
    c.floor("runs of nested loop join", 500)
    c.floor("runs of hash join", 100)
