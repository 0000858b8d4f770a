"""INSERT, UPDATE and DELETE: the rows they change, given the rows below them."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last
from prog import AnchorError
from rules.operators import Query, X, PL, EX, EXEC, EXPRESSION, COL, script
from rules.values import TID
from rules.indexes import info_path

TXHEAP = "storage::table::transactional_table_heap::TransactionalTableHeap"
HEAP = "storage::table::table_heap::TableHeap"
ITER = "storage::table::table_iterator::TableIterator"
INFO = "storage::table::table_heap::TableInfo"
META = "storage::table::tuple::TupleMeta"
FK = "catalog::column::ForeignKeyConstraint"
CATALOG, DATABASE = "catalog::catalog_impl::Catalog", "catalog::database::Database"
TREE = "storage::index::b_plus_tree::BPlusTree"


# whether the heap makes up values that are left out and moves rows it updates; the row that cannot be read back; what is judged
GAPS, LOST, JUDGE = [False], [None], [None]


class Change(Query):
    """a statement over a table whose changes are recorded"""

    def __init__(self, c, cols, fail_at=None, other=(), other_fails=None):
        Query.__init__(self, c)
        self.log, self.done, self.fail_at = [], 0, fail_at
        self.other, self.other_fails = list(other), other_fails
        self.scans = []
        self.tcols = cols
        self.table_schema = self.with_key(cols)
        heap = self.s.alloc(adt("HEAP", "target", ()))
        self.info = self.s.alloc(self.make(INFO + "::new", self.table_schema, mk("s", "t"), heap, I(3)))
        self.other_rows = [self.s.alloc(self.tuple([900 + i, x], 50 + i, self.schema([("k0", "Integer"), ("k", "Integer")]))) for i, x in enumerate(self.other)]
        self.meta = self.s.alloc(c.obj(META, "m", creator_txn_id=I(1), commit_timestamp=some(I(1)), deleted=FALSE, undo_log_idx=NONE))
        oheap = self.s.alloc(adt("HEAP", "other", ()))
        self.oinfo = self.s.alloc(self.make(INFO + "::new", self.schema([("k0", "Integer"), ("k", "Integer")]), mk("s", "o"), oheap, I(4)))
        self.txheap = self.s.alloc(self.make(TXHEAP + "::new", heap, I(3)))
        self.stored, self.entries, self.lost, self.gaps, self.moves = {}, [], LOST[0], GAPS[0], GAPS[0]
        ixs = [self.index(i, *x) for i, x in enumerate((("ia", "t", 0), ("ib", "t", 1), ("iab", "t", 0, 1), ("io", "o", 1)))]
        db = c.obj(DATABASE, "db", tables=M((I(3), self.s.mem[self.info.a[0]]), (I(4), self.s.mem[self.oinfo.a[0]])), table_names=M((mk("s", "t"), I(3)), (mk("s", "o"), I(4))),
                   indexes=M(*[(I(i), x) for i, x in enumerate(ixs)]), index_names=M(*[(mk("s", f"x{i}"), I(i)) for i in range(len(ixs))]))
        cat = c.obj(CATALOG, "catalog", databases=M((mk("s", "d"), db)), current_database=some(mk("s", "d")))
        self.catalog = self.s.alloc(self.s.alloc(adt("Cell", "", (("data", cat),))))

    def index(self, i, name, table, *cols):
        """an index of the catalog; its tree only records what is put in"""
        info = self.c.obj(info_path(self.c), "info", index_name=mk("s", name), index_oid=I(i), table_name=mk("s", table), key_attrs=L(*[I(x) for x in cols]))
        return tup(self.s.alloc(info), self.s.alloc(adt("Cell", "", (("data", adt("TREE", name, ())),))))

    def keep(self, vals, rid, gaps=False):
        """the row is stored at its place; values that were left out are made up"""
        n = self.done
        vs = [7000 + n if v is None and gaps else v for v in vals]
        t = self.c.obj("storage::table::tuple::Tuple", "stored", values=L(*[self.value(v) for v in vs]), rid=rid)
        self.stored[rid] = (tuple(vs), t)
        return ok(rid)

    def with_key(self, cols):
        out = []
        for n, t, *k in cols:
            col = self.column(n, t)
            if k:
                fk = self.c.obj(FK, "fk", referenced_table=mk("s", "o"), referenced_column=mk("s", "k"), on_delete=NONE, on_update=NONE)
                col = adt(col.a[0], col.a[1], tuple((f, some(fk) if f == "foreign_key" else x) for f, x in col.a[2]))
            out.append(col)
        return self.make("catalog::schema::Schema::new", L(*out))

    def target(self, it, st, x):
        """which table a transactional heap is of"""
        while x.k == "ref":
            x = it.deref(st, x)
        v = it.proj(x, (".", "table_heap"))
        while v.k == "ref":
            v = it.deref(st, v)
        return v.a[1] if v.k == "adt" and v.a[0] == "HEAP" else show(v)

    def change(self, st, *what):
        self.done += 1
        if self.fail_at == self.done - 1:
            return [(st, err(sym("refused")))]
        self.log.append(what)
        return None

    def icept(self, it, st, p, r, u, args, line):
        q = r or p
        n = last(p)
        if n == "get_catalog":
            return [(st, self.catalog)]
        if n == "get_transaction_context":
            return [(st, sym(n))]
        if q == TREE + "::insert":
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k == "adt" and x.a[0] == "TREE":
                self.entries.append((x.a[1], self.plain_in(it, st, args[1]), args[2]))
                return [(st, TRUE)]
        if q.startswith((HEAP + "::get_tuple", TXHEAP + "::get_tuple")) and n in ("get_tuple", "get_tuple_internal"):
            if args[1] not in self.stored or self.lost == len(self.stored) - 1:
                return [(st, err(sym("unreadable")))]
            st.n += 1
            root = ("H", it.fid(st, "stored"))
            st.mem[root] = self.stored[args[1]][1]
            return [(st, ok(tup(self.s.mem[self.meta.a[0]], ref(root))))]
        if n == "get_table" and "catalog::" in q:
            x = args[1]
            while x.k == "ref":
                x = it.deref(st, x)
            return [(st, some({"t": self.info, "o": self.oinfo}[x.a[0]]))]
        if n == "get_table_by_oid" and "catalog::" in q:
            return [(st, some(self.info if args[1] == I(3) else self.oinfo))]
        if n.startswith("record_") and "performance_monitor" in q:
            return [(st, UNIT)]
        if q.startswith(TXHEAP + "::"):
            if n in ("insert_tuple_from_values", "insert_tuple_from_values_with_catalog"):
                vs = [self.plain_in(it, st, v) for v in elems(args[1])]
                return self.change(st, "insert", self.target(it, st, args[0]), tuple(vs)) or [(st, self.keep(vs, self.rid(100 + self.done), self.gaps))]
            if n == "insert_tuple":
                # a row goes in only if it carries the place it gets
                t = args[2]
                while t.k == "ref":
                    t = it.deref(st, t)
                if it.proj(t, (".", self.rf())) != self.rid(100 + self.done):
                    return [(st, err(sym("out of place")))]
                return self.change(st, "insert", self.target(it, st, args[0]), tuple(self.row(it, st, t))) or [(st, self.keep(self.row(it, st, t), self.rid(100 + self.done)))]
            if n == "update_tuple":
                t = args[2]
                while t.k == "ref":
                    t = it.deref(st, t)
                return self.change(st, "update", self.target(it, st, args[0]), it.proj(args[3], (".", "slot_num")).a[0], tuple(self.row(it, st, t))) or [(st, self.keep(self.row(it, st, t), self.rid(300 + self.done) if self.moves else args[3]))]
            if n == "delete_tuple":
                return self.change(st, "delete", self.target(it, st, args[0]), it.proj(args[1], (".", "slot_num")).a[0]) or [(st, ok(UNIT))]
            if n == "make_iterator":
                # the scripts below are per scan
                self.scans.append([self.target(it, st, args[0]), 0, False])
                return [(st, adt("SCAN", str(len(self.scans) - 1), ()))]
        x = args[0] if args else UNIT
        while x.k == "ref":
            x = it.deref(st, x)
        if x.k == "adt" and x.a[0] == "SCAN":
            sc = self.scans[int(x.a[1])]
            if n == "next":
                if sc[1] == self.other_fails:
                    sc[2] = True
                if sc[2] or sc[1] >= len(self.other_rows):
                    return [(st, NONE)]
                sc[1] += 1
                return [(st, some(tup(self.meta, self.other_rows[sc[1] - 1])))]
            if n == "into_iter":
                return [(st, args[0])]
            if n in ("take_error", "error"):
                return [(st, some(sym("unreadable")) if sc[2] else NONE)]
            if n == "drop":
                return [(st, UNIT)]
        if n == "expand_values_for_schema":
            return [(st, ok(args[1]))]
        out = Query.icept(self, it, st, p, r, u, args, line)
        if n == "next" and out is not None and (p.startswith(EXEC + "::") or q.startswith(EXEC + "::")):
            self.log.append(("read",))
        return out

    def changes(self):
        return [x for x in self.log if x[0] != "read"]


def verdict(c, what, say, job, Q, end, want, fails, fn):
    if JUDGE[0]:
        return JUDGE[0](c, what, say, job, Q, end, fn)
    got = Q.changes()
    if fails:
        good = end == "failure" and got == want[:len(got)]
        then = "the statement must fail"
    else:
        good = end == "end" and got == want
        then = f"they should be {want}"
    c.require(good, f"{what}:{job}", f"{say}: the changes are {got}, then {end}; {then}", fn, what=f"runs of {what}")


TYI, TYU, TYD = (X + f"{n}_executor::{n.capitalize()}Executor" for n in ("insert", "update", "delete"))
TCOLS = [("a", "Integer"), ("b", "Integer")]


def inserted(kind, row):
    """the values stored for a source row"""
    if kind == "swapped":
        return (row[1], row[0])
    if kind == "only b":
        return (None, row[0])
    if kind in ("only x", "only a"):
        return (row[0], None)
    return tuple(row[:2])


SOURCES = {"same": ["a", "b"], "swapped": ["b", "a"], "others": ["x", "y"], "only b": ["b"], "only x": ["x"], "only a": ["a"], "half known": ["b", "y"]}


def insert_below(c, job):
    kind, src, at, keys = job
    cols = [("a", "Integer"), ("b", "Integer", True)] if keys else TCOLS
    Q = Change(c, cols, at, *(keys or ()))
    ch = Q.source("below", [(n, "Integer") for n in SOURCES[kind]], src)
    plan = Q.make(PL + "insert_plan::InsertNode::new", Q.table_schema, I(3), mk("s", "t"), L(), L(Q.child_plan(ch)))
    ex = Q.make(TYI + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(TYI, ex)
    good = [r for r in src if r != "fails"]
    want = [("insert", "target", inserted(kind, r)) for r in good]
    fails = "fails" in src or at is not None and at < len(good)
    if keys:
        fails, want = keyed(keys, want, fails)
    fn = c.P.method(EXEC, TYI, "next")
    say = f"INSERT of {src} (columns {', '.join(SOURCES[kind])})" + (f" referring to rows {keys[0]}" if keys else "") + (f", change no. {at} refused" if at is not None else "")
    verdict(c, "insert", say, job, Q, end, want, fails, fn)
    c.require(not rows, f"insert:{job}:rows", f"{say}: hands out rows {rows}", fn)
    first = next((i for i, x in enumerate(Q.log) if x[0] == "insert"), len(Q.log))
    c.require(("read",) not in Q.log[first:], f"insert:{job}:order", f"{say}: reads rows below it after it has begun to insert", fn)


def keyed(keys, want, fails):
    """(fails, changes) of rows whose second column must be there in the other table"""
    there, bad = keys
    for i, w in enumerate(want):
        k = w[2][1]
        if k is not None and k not in (there if bad is None else there[:bad]):
            return True, want[:i]
    return fails, want


def insert_direct(c, job):
    rows_, at, keys = job
    cols = [("a", "Integer"), ("b", "Integer", True)] if keys else TCOLS
    Q = Change(c, cols, at, *(keys or ()))
    plan = Q.make(PL + "insert_plan::InsertNode::new", Q.table_schema, I(3), mk("s", "t"), L(*[L(*[Q.value(v) for v in r]) for r in rows_]), L())
    ex = Q.make(TYI + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(TYI, ex)
    want = [("insert", "target", tuple(r)) for r in rows_]
    fails = at is not None and at < len(rows_) or not rows_
    if keys:
        fails, want = keyed(keys, want, fails)
    fn = c.P.method(EXEC, TYI, "next")
    n = len(rows_)
    verdict(c, "insert", f"INSERT of {rows_ if n < 6 else str(n) + ' rows'}" + (f" referring to rows {keys[0]}" if keys else "") + (f", change no. {at} refused" if at is not None else ""), (str(rows_)[:60], n, at, keys), Q, end, want, fails, fn)


ASSIGN = {
    "b := f": [(1, lambda r: r[0] + r[1])],
    "a := b, b := a": [(0, lambda r: r[1]), (1, lambda r: r[0])],
    "a := NULL": [(0, lambda r: None)],
    "nothing": [],
    "a fails": [(1, lambda r: 5), (0, lambda r: "fails" if r[0] == 20 else 7)],
}


def update(c, job):
    name, src, at, style = job
    Q = Change(c, TCOLS, at)
    ch = Q.source("below", TCOLS, src)
    es = []
    for i, (col, f) in enumerate(ASSIGN[name]):
        e = Q.expr(f"e{i}", f)
        Q.cols = {f"e{j}": Q.s.alloc(Q.column("e")) for j in range(i + 1)} if not hasattr(Q, "cols") else {**Q.cols, f"e{i}": Q.s.alloc(Q.column("e"))}
        if style == "assignment":
            a = Q.make(EX + "assignment_expression::AssignmentExpression::new", I(col), Q.column(TCOLS[col][0]), e)
            es.append(Q.s.alloc(adt(EXPRESSION, "Assignment", (("0", a),))))
        else:
            es += [Q.colref(col, TCOLS[col][0]), e]
    plan = Q.make(PL + "update_plan::UpdateNode::new", Q.table_schema, mk("s", "t"), I(3), L(*es), L(Q.child_plan(ch)))
    ex = Q.make(TYU + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(TYU, ex)
    want, fails = [], False
    for i, r in enumerate(src):
        new = list(r) if r != "fails" else []
        if r != "fails":
            for col, f in ASSIGN[name]:
                new[col] = f(r)
        if r == "fails" or "fails" in new or at == i:
            fails = True
            break
        want.append(("update", "target", i, tuple(new)))
    fn = c.P.method(EXEC, TYU, "next")
    say = f"UPDATE of {src} with {name}" + (f", change no. {at} refused" if at is not None else "")
    verdict(c, "update", say, job, Q, end, want, fails, fn)
    counted(c, f"update:{job}", say, rows, end, want, fn)


def counted(c, key, say, rows, end, want, fn):
    if end == "end":
        got = [r for r, _ in rows]
        c.require(got == ([(len(want),)] if want else []), key + ":count", f"{say}: reports {got} for {len(want)} changed rows", fn)


def delete(c, job):
    src, at = job
    Q = Change(c, TCOLS, at)
    ch = Q.source("below", TCOLS, src)
    plan = Q.make(PL + "delete_plan::DeleteNode::new", Q.table_schema, mk("s", "t"), I(3), L(Q.child_plan(ch)))
    ex = Q.make(TYD + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(TYD, ex)
    n = len([r for r in src if r != "fails"])
    want = [("delete", "target", i) for i in range(n)]
    fails = "fails" in src or at is not None and at < n
    fn = c.P.method(EXEC, TYD, "next")
    say = f"DELETE of {src}" + (f", change no. {at} refused" if at is not None else "")
    verdict(c, "delete", say, job, Q, end, want, fails, fn)
    counted(c, f"delete:{job}", say, rows, end, want, fn)


def childless(c, ty):
    """a source that cannot be set up fails the statement"""
    Q = Change(c, TCOLS)
    mod = {TYI: "insert", TYU: "update", TYD: "delete"}[ty]
    args = {TYI: (Q.table_schema, I(3), mk("s", "t"), L(), L()), TYU: (Q.table_schema, mk("s", "t"), I(3), L(), L()), TYD: (Q.table_schema, mk("s", "t"), I(3), L())}[ty]
    plan = Q.make(PL + f"{mod}_plan::{mod.capitalize()}Node::new", *args)
    ex = Q.make(ty + "::new", sym("context"), Q.s.alloc(plan))
    rows, end = Q.run(ty, ex)
    c.require(end == "failure" and not Q.changes(), f"{mod}:no source", f"{mod.upper()} without a source of rows: changes {Q.changes()}, then {end}; the statement must fail", c.P.method(EXEC, ty, "next"), what="runs without a source")


def changes(c):
    """Q05"""
    c.rule_text = "INSERT, UPDATE and DELETE change every row of their source once, with the right values, and fail when a row, an expression or a change fails"
    jobs = []
    for kind, names in SOURCES.items():
        for src in script(3 if kind in ("same", "swapped") else 2, width=len(names)):
            jobs.append((kind, src, None, None))
            for at in range(len(src)):
                if kind in ("same", "only b"):
                    jobs.append((kind, src, at, None))
    for there in ([], [11], [11, 21]):
        for src in script(2, width=2):
            jobs.append(("same", src, None, (there, None)))
            for bad in range(len(there) + 1):
                jobs.append(("same", src, None, (there, bad)))
        jobs.append(("same", [[10, None], [20, 21]], None, (there, None)))
    c.parallel(jobs, insert_below)
    jobs = []
    for n in (1, 2, 3):
        rows = [[10 * i, 10 * i + 1] for i in range(1, n + 1)]
        for at in [None, *range(n)]:
            jobs.append((rows, at, None))
        for there in ([], [11], [11, 21, 31]):
            for bad in [None, *range(len(there) + 1)]:
                jobs.append((rows, None, (there, bad)))
    for n in (99, 100, 101, 205):
        jobs.append(([[i, None] for i in range(n)], None, None))
        jobs.append(([[i, None] for i in range(n)], n - 1, None))
    c.parallel(jobs, insert_direct)
    jobs = []
    for name in ASSIGN:
        for src in script(3, width=2):
            for style in ("assignment", "pairs"):
                jobs.append((name, src, None, style))
                if name != "nothing":
                    for at in range(len(src)):
                        jobs.append((name, src, at, style))
    c.parallel(jobs, update)
    jobs = [(src, at) for src in script(3, width=2) for at in [None, *range(len(src))]]
    c.parallel(jobs, delete)
    for ty in (TYI, TYU, TYD):
        childless(c, ty)
    c.floor("runs of insert", 60)
    c.floor("runs of update", 40)
    c.floor("runs of delete", 10)
