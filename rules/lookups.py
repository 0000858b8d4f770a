"""Indexes next to their tables: the entries they hold and the rows found through them."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last
from prog import AnchorError
from rules.changes import Change, TXHEAP, HEAP, insert_below, insert_direct, update, SOURCES, ASSIGN, script
from rules.indexes import Keys, TREE, ITER, info_path
from rules.operators import X, PL, EX, EXEC, EXPRESSION, Query, rank as _rank
from rules.values import TID

IXS = X + "index_scan_executor::IndexScanExecutor"
CT, LT = EX + "comparison_expression::ComparisonType", EX + "logic_expression::LogicType"
BPM = "buffer::buffer_pool_manager_async::BufferPoolManager"


class Look(Change, Keys):
    """a table, its visible rows, and an index with an entry for each"""

    def __init__(self, c, key_col, ncols):
        Change.__init__(self, c, [(f"c{i}", "Integer") for i in range(ncols)])
        self.key_col, self.rows, self.lost, self.hidden = key_col, {}, set(), set()
        info = c.obj(info_path(c), "info", key_attrs=L(I(key_col)), key_schema=self.schema([("k", "Integer")]))
        self.ix = self.s.alloc(info)
        self.tree = self.s.alloc(adt("Cell", "", (("data", self.make(TREE + "::new", I(4), self.ix)),)))
        self.found = True

    def rank(self, it, st, v):
        for _ in range(6):
            if v.k == "ref":
                v = it.deref(st, v)
        if v.k != "adt" or v.a[0] != "types_db::value::Value":
            return None
        x = self.plain_in(it, st, v)
        return (x,) if x is None or isinstance(x, int) and not isinstance(x, bool) else None

    def add(self, vals, page, visible=True, keys=()):
        """a row; its entries are of its key and of the keys it had"""
        n = len(self.rows)
        r = self.make("common::rid::RID::new", I(page), I(n))
        t = self.s.alloc(self.make("storage::table::tuple::Tuple::new", self.s.alloc(L(*[self.value(v) for v in vals])), self.s.alloc(self.table_schema), r))
        self.rows[(page, n)] = (tuple(vals), t)
        if not visible:
            self.hidden.add((page, n))
        for k in (vals[self.key_col], *keys):
            k, v = self.s.call(self.c.P.get(TREE + "::insert"), ref(self.tree.a[0], ((".", "data"),)), self.value(k), r)
            if k != "return" or v != TRUE and not keys:
                raise AnchorError(f"the tree does not take an entry: {k} {v}")

    def at(self, it, st, x):
        while x.k == "ref":
            x = it.deref(st, x)
        return it.proj(x, (".", "page_id")).a[0], it.proj(x, (".", "slot_num")).a[0]

    def icept(self, it, st, p, r, u, args, line):
        q = r or p
        n = last(p)
        if n == "get_index_by_index_oid":
            return [(st, some(tup(self.ix, self.tree)) if self.found else NONE)]
        if q == HEAP + "::get_page":
            return [(st, err(sym("unreadable")) if args[1].a[0] in self.lost else ok(adt("GUARD", str(args[1].a[0]), ())))]
        if n == "drop" and args:
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k == "adt" and x.a[0] == "GUARD":
                return [(st, UNIT)]
        if q.startswith((TXHEAP + "::get_tuple", HEAP + "::get_tuple")):
            k = self.at(it, st, args[1])
            if k[0] in self.lost or k in self.hidden or k not in self.rows:
                return [(st, err(sym("not visible")))]
            return [(st, ok(tup(self.meta, self.rows[k][1])))]
        if n == "compare_keys_ordering" or n == "fmt":
            return None
        out = self.keys_icept(it, st, p, r, u, args, line)
        return out if out is not None else Change.icept(self, it, st, p, r, u, args, line)

    # ---- predicates
    def const(self, v):
        return self.s.alloc(adt(EXPRESSION, "Constant", (("0", self.make(EX + "constant_value_expression::ConstantExpression::new", self.value(v), self.column("v", "Integer" if isinstance(v, int) else "VarChar"), L())),)))

    def pred(self, e):
        """(expression, what it yields for a row)"""
        op = e[0]
        if op in CMP:
            l, r = self.colref(e[1], f"c{e[1]}"), self.const(e[2])
            x = self.make(EX + "comparison_expression::ComparisonExpression::new", l, r, unit(CT, CMP[op][0]), L(l, r))
            return self.s.alloc(adt(EXPRESSION, "Comparison", (("0", x),))), lambda row: None if row[e[1]] is None or e[2] is None else CMP[op][1](row[e[1]], e[2])
        if op == "flip":
            l, r = self.const(e[2]), self.colref(e[1], f"c{e[1]}")
            x = self.make(EX + "comparison_expression::ComparisonExpression::new", l, r, unit(CT, "LessThan"), L(l, r))
            return self.s.alloc(adt(EXPRESSION, "Comparison", (("0", x),))), lambda row: None if row[e[1]] is None else e[2] < row[e[1]]
        if op == "cols":
            l, r = self.colref(e[1], f"c{e[1]}"), self.colref(e[2], f"c{e[2]}")
            x = self.make(EX + "comparison_expression::ComparisonExpression::new", l, r, unit(CT, "Equal"), L(l, r))
            return self.s.alloc(adt(EXPRESSION, "Comparison", (("0", x),))), lambda row: None if row[e[1]] is None or row[e[2]] is None else row[e[1]] == row[e[2]]
        if op == "scripted":
            f = e[1]
            return self.expr(f"p{len(self.ev)}", f), f
        (l, fl), (r, fr) = self.pred(e[1]), self.pred(e[2] if op != "not" else e[1])
        if op == "not":
            r = self.const(True)
        x = self.make(EX + "logic_expression::LogicExpression::new", l, r, unit(LT, op.capitalize()), L(l, r) if op != "not" else L(l))
        def f(row):
            a, b = fl(row), fr(row)
            if "fails" in (a, b):
                return "fails"
            if op == "not":
                return None if a is None else not a
            if op == "and":
                return False if False in (a, b) else None if None in (a, b) else True
            return True if True in (a, b) else None if None in (a, b) else False
        return self.s.alloc(adt(EXPRESSION, "Logic", (("0", x),))), f


CMP = {"=": ("Equal", lambda a, b: a == b), "<>": ("NotEqual", lambda a, b: a != b), "<": ("LessThan", lambda a, b: a < b), "<=": ("LessThanOrEqual", lambda a, b: a <= b),
       ">": ("GreaterThan", lambda a, b: a > b), ">=": ("GreaterThanOrEqual", lambda a, b: a >= b)}

# (keys of the visible rows, in order of their places; rows carry 10 * place as second column)
TABLES = {
    "none": [], "one": [4], "some": [2, 8, 4, 6], "equal": [4, 4, 2, 4, 6, 4], "with NULLs": [None, 4, None, 2, 8], "many": [2 * (i * 7 % 11) for i in range(11)],
}


def simple():
    for op in CMP:
        for v in (1, 4, 5, 20):
            yield (op, 0, v)


def predicates():
    yield from ([p] for p in simple())
    yield []
    yield [("flip", 0, 4)]
    yield [("=", 1, 30)]
    yield [("<", 1, 30)]
    yield [("cols", 0, 1)]
    yield [("=", 0, None)]
    few = [("=", 0, 4), ("<", 0, 6), (">=", 0, 4), ("<>", 0, 4), ("=", 1, 30), (">", 0, 20), ("<=", 0, 5)]
    for a, b in itertools.product(few, few):
        yield [("and", a, b)]
        yield [("or", a, b)]
        yield [a, b]
    for a in few:
        yield [("not", a)]
        yield [("not", ("and", a, (">", 0, 2)))]
        yield [("or", ("and", a, (">", 0, 2)), ("and", ("<", 0, 9), ("<>", 0, 6)))]
        yield [("and", ("or", a, ("=", 0, 8)), ("<", 0, 8))]


def words(e):
    if e[0] == "scripted":
        return "a scripted condition"
    if e[0] in CMP:
        return f"c{e[1]} {e[0]} {'NULL' if e[2] is None else e[2]}"
    if e[0] == "flip":
        return f"{e[2]} < c{e[1]}"
    if e[0] == "cols":
        return f"c{e[1]} = c{e[2]}"
    if e[0] == "not":
        return f"not ({words(e[1])})"
    return f"({words(e[1])} {e[0]} {words(e[2])})"


def swap(e):
    """the predicate for a table whose two columns trade places"""
    if e[0] in CMP or e[0] == "flip":
        return (e[0], 1 - e[1], e[2])
    if e[0] == "cols":
        return e
    if e[0] == "scripted":
        return e
    return (e[0], *[swap(x) for x in e[1:]])


def seek(c, job):
    """an index scan"""
    table, preds, col, twist = job
    Q = Look(c, col, 2)
    name = table
    for i, k in enumerate(TABLES[table]):
        row = [k, 10 * i]
        vis, old = True, ()
        if twist == "hidden" and i % 2:
            vis = False
        if twist == "old keys":
            old = (TABLES[table][i - 1], 5, 4)
        Q.add(row if not col else row[::-1], 20 + i % 3, vis, old)
    if twist == "unreadable" and len(Q.rows) > 1:
        Q.lost = {21}
    if col:
        preds = [swap(p) for p in preds]
    ps = [Q.pred(p) for p in preds]
    if twist == "fails":
        bad = 10 * (len(TABLES[table]) // 2)
        ps.append(Q.pred(("scripted", lambda row, bad=bad: "fails" if bad in row else True)))
    plan = Q.make(PL + "index_scan_plan::IndexScanNode::new", Q.table_schema, mk("s", "t"), I(3), mk("s", "i"), I(7), L(*[x for x, _ in ps]))
    ex = Q.make(IXS + "::new", sym("context"), Q.s.alloc(plan))
    Q.found = twist != "gone"
    rows, end = Q.run(IXS, ex, limit=len(Q.rows) + 4)
    got = sorted((r[0] for r in rows), key=str)
    fs = [f for _, f in ps]
    def holds(row):
        for f in fs:
            y = f(list(row))
            if y == "fails":
                return "fails"
            if y is not True:
                return False
        return True
    seen = [v for k, (v, _) in Q.rows.items() if k not in Q.hidden]
    want = sorted((tuple(v) for v in seen if holds(v) is True), key=str)
    fn = c.P.method(EXEC, IXS, "next")
    say = f"index scan (key column {col}) of {[v for v, _ in Q.rows.values()]}" + (f", {twist}," if twist else "") + f" for {' and '.join(words(p) for p in preds) or 'every row'}"
    if twist in ("unreadable", "gone", "fails"):
        good = set(got) <= set(want) and len(set(got)) == len(got) and (end == "failure" or end == "end" and got == want and not any(holds(v) == "fails" for v in seen) and twist != "gone")
        c.require(good, f"seek:{job[:1]}:{col}:{twist}:{[words(p) for p in preds]}", f"{say}: hands out {got}, then {end}; the rows are {want}, and the scan must fail unless it has them all", fn, what="scans that cannot succeed")
    else:
        c.require(end == "end" and got == want, f"seek:{job[:1]}:{col}:{twist}:{[words(p) for p in preds]}", f"{say}: hands out {got}, then {end}; the rows are {want}", fn, what="index scans")
        c.require(all(Q.rows.get(Q.at(Q.s.o.interp, Q.s.o.state, r), (None,))[0] == v for v, r in rows), f"seek:{job[:1]}:{col}:{twist}:{[words(p) for p in preds]}:rid", f"{say}: a row comes with the row id of another", fn)


class Walk(Look):
    def rids(self, v):
        it, st = self.s.o.interp, self.s.o.state
        if v.k == "adt" and v.a[1] in ("Ok", "Err"):
            if v.a[1] == "Err":
                return "failure"
            v = v.a[2][0][1]
        if v.a[1] == "None":
            return None
        return self.at(it, st, v.a[2][0][1])


def walk(c, job):
    """an iterator over a range of keys"""
    table, a, b, steps = job
    Q = Walk(c, 0, 2)
    for i, k in enumerate(TABLES[table]):
        Q.add([k, 10 * i], 20 + i % 3)
    low = lambda k: (k is not None, k or 0)
    inside = lambda k: (a is None or low(a) <= low(k)) and (b is None or low(k) <= low(b))
    ents = sorted(((low(v[0]), k) for k, (v, _) in Q.rows.items()))
    want = [(l, k) for l, k in ents if inside(l[1] if l[0] else None)]
    key = lambda k: NONE if k is None else some(Q.s.alloc(Q.make("storage::table::tuple::Tuple::new", Q.s.alloc(L(Q.value(k), Q.value(0))), Q.s.alloc(Q.table_schema), Q.rid(0))))
    me = Q.s.alloc(Q.make(ITER + "::new", Q.tree, key(a), key(b)))
    P = c.P
    nxt = P.get(ITER + "::try_next")
    say = f"index iterator over keys {TABLES[table]} from {'the first' if a is None else a} to {'the last' if b is None else b}"
    out, end = [], None
    def step(f, *args):
        k, v = Q.s.call(f, me, *args)
        return Q.rids(v) if k == "return" else k
    if steps == "reset":
        for _ in range(2):
            step(nxt)
        Q.s.call(P.get(ITER + "::reset"), me)
    if steps == "back":
        back = P.method("core::iter::traits::double_ended::DoubleEndedIterator", ITER, "next_back")
        f = P.method("core::iter::traits::iterator::Iterator", ITER, "next")
        for i in range(len(want) + 3):
            x = step(back if i % 2 else f)
            if x is None or isinstance(x, str):
                end = x
                break
            out.append(x)
        got = sorted(out)
        c.require(end is None and got == sorted(k for _, k in want), f"walk:{job}", f"{say}, read from both ends: lists {out}, then {end or 'the end'}; the rows there are {[k for _, k in want]}", back, what="walks from both ends")
        return
    if isinstance(steps, int):
        t = Q.s.alloc(Q.make("storage::table::tuple::Tuple::new", Q.s.alloc(L(Q.value(steps), Q.value(0))), Q.s.alloc(Q.table_schema), Q.rid(0)))
        want = [(l, k) for l, k in ents if low(steps) <= l and (b is None or l <= low(b))]
        say += f", moved to {steps}"
        x = step(P.get(ITER + "::try_seek"), t)
        if x is not None and not isinstance(x, str):
            out.append(x)
    for _ in range(len(want) + 3):
        x = step(nxt)
        if x is None or isinstance(x, str):
            end = x
            break
        out.append(x)
    else:
        end = "no end"
    ks = {k: low(v[0]) for k, (v, _) in Q.rows.items()}
    order = [ks.get(k) for k in out]
    good = end is None and sorted(out) == sorted(k for _, k in want) and order == sorted(order)
    c.require(good, f"walk:{job}", f"{say}: lists {out}, then {end or 'the end'}; the rows there are {[k for _, k in want]}", nxt, what="walks")


def lookups(c):
    """I02"""
    c.rule_text = "a scan through an index hands out exactly the visible rows that satisfy its predicates, once each, and comes to an end"
    bounds = (None, 1, 4, 5, 20)
    jobs = [(t, a, b, s) for t in TABLES for a in bounds for b in bounds for s in ("all", "reset", "back")]
    jobs += [(t, a, b, s) for t in ("none", "some", "equal") for a in (None, 1) for b in bounds for s in (1, 4, 5, 20)]
    c.parallel(jobs, walk)
    ps = list(predicates())
    jobs = [(t, p, col, None) for t in TABLES for i, p in enumerate(ps) for col in (0, 1) if t in ("some", "equal", "with NULLs") or i % 6 == len(t) % 6]
    few = [[], [("=", 0, 4)], [("or", ("=", 0, 4), (">", 0, 5))], [("<=", 0, 6)]]
    jobs += [(t, p, col, tw) for t in TABLES for p in few for col in (0, 1) for tw in ("hidden", "old keys", "unreadable", "gone", "fails") if t != "none" or tw == "gone"]
    c.parallel(jobs, seek)
    c.floor("index scans", 400)
    c.floor("walks", 200)
