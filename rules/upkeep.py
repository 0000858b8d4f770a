"""The entries an index holds for the rows of its table."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last
from prog import AnchorError
import rules.changes as CH
from rules.changes import insert_below, insert_direct, update, script, SOURCES, ASSIGN, DATABASE, TREE
from rules.tables import Heap, MAX

KIND = "storage::index::types::index_types::IndexType"


class Judged(Exception):
    pass


def held(c, what, say, job, Q, end, fn):
    """every row written has its entry in each index of its table, and no other table's index is touched"""
    lost = CH.LOST[0]
    key = f"{what}:{job}:{lost}:{CH.GAPS[0]}"
    bad = []
    for i, (rid, (vs, _)) in enumerate(Q.stored.items()):
        if lost == i:
            break
        bad += [f"{n} lacks ({v}, {show(rid)})" for n, v in (("the index of the first column", vs[0]), ("the index of the second column", vs[1])) if ("ia" if "first" in n else "ib", v, rid) not in Q.entries]
    c.require(not bad, key, f"{say}{', moving the rows' if Q.moves else ''}: afterwards {'; '.join(bad[:3])}", fn, what=f"rows written by {what}")
    extra = [(n, v, show(r)) for n, v, r in Q.entries if n == "io" or r not in Q.stored]
    c.require(not extra, key + ":extra", f"{say}: entries that are of no row written: {extra[:3]}", fn)
    if lost is not None and lost < len(Q.stored):
        c.require(end == "failure", key + ":lost", f"{say}, row no. {lost} cannot be read back for its entries: the statement ends in {end}", fn, what="rows that cannot be read back")
    raise Judged


def written(c, job):
    f, gaps, lost, args = job
    CH.GAPS[0], CH.LOST[0], CH.JUDGE[0] = gaps, lost, held
    try:
        {"insert": insert_below, "direct": insert_direct, "update": update}[f](c, args)
    except Judged:
        pass
    finally:
        CH.GAPS[0], CH.LOST[0], CH.JUDGE[0] = False, None, None


class Made(Heap):
    """a table that gets an index"""

    def __init__(self, c):
        Heap.__init__(self, c)
        self.entries = []

    def fork(self):
        t = Heap.fork(self)
        t.__class__, t.entries = Made, list(self.entries)
        t.s.kw = {**t.s.kw, "intercept": t.icept}
        return t

    def icept(self, it, st, p, r, u, args, line):
        if (r or p) == TREE + "::insert":
            key = args[1]
            while key.k == "ref":
                key = it.deref(st, key)
            self.entries.append((show(key), args[2]))
            return [(st, TRUE)]
        if last(p) == "get_table_info_by_name" or last(p) == "get_table" and "catalog" in p:
            return [(st, some(self.info))]
        return Heap.icept(self, it, st, p, r, u, args, line)

    def create(self, attrs):
        """(what is returned, whether the database has the index)"""
        c = self.c
        self.begin()
        self.entries = []
        db = c.obj(DATABASE, "db", tables=M((I(3), self.infov)), table_names=M((mk("s", "t"), I(3))), indexes=M(), index_names=M(), next_index_oid=I(1))
        me = self.s.alloc(db)
        k, v = self.s.call(c.P.get(DATABASE + "::create_index"), me, self.s.alloc(mk("s", "i")), self.s.alloc(mk("s", "t")), self._schema, L(*[I(a) for a in attrs]), I(4), FALSE, unit(self.kind(), "BPlusTreeIndex"))
        if k != "return":
            return k, False
        it = self.s.o.interp
        d = self.s.load(me)
        n = [len(pairs(it.proj(d, (".", f)))) for f in ("indexes", "index_names")]
        return ("made" if v.a[1] == "Some" else "refused"), n == [1, 1] if v.a[1] == "Some" else n != [0, 0]

    def kind(self):
        n = [p for p in self.c.P.adt if p.startswith("storage::index::") and last(p) == "IndexType"]
        if len(n) != 1:
            raise AnchorError("no single IndexType")
        return n[0]


def made(c, job):
    sizes, gone, hidden, attrs = job
    H = Made(c)
    for size in sizes:
        k, r = H.insert(size, "insert_tuple_from_values")
        if k != "ok":
            raise AnchorError(f"a row is {k}")
        H.rows[r[0]] = (r[1], r[2])
    ks = list(H.rows)
    for g in gone:
        H.delete(ks[g])
    H.invisible = {ks[h] for h in hidden}
    f = c.P.get(DATABASE + "::create_index")
    T = H.fork()
    got, has = T.create(attrs)
    say = f"CREATE INDEX on columns {attrs} of a table after {'; '.join(H.hist[-9:])}"
    c.require(got == "made" and has, f"made:{job}", f"{say}: {got}, and the database {'has' if has else 'lacks'} it", f, what="indexes made")
    es = [(k, T.key(r)) for k, r in T.entries]
    if attrs == (0,):
        want = {(show(sym(nm)), k) for k, (m, nm) in H.rows.items()}
        c.require(set(es) == want, f"made:{job}:entries", f"{say}: the entries are {sorted(k for _, k in es)}; the rows, deleted or not, are {sorted(H.rows)}", f, what="indexes made over rows")
    n = T.asked
    for kind, which in [("read", i) for i in range(n)] + [("page", p) for p in list(H.pages)[:len(H.pages) - len(H.free)]]:
        T = H.fork()
        if kind == "read":
            T.fail_at = which
        else:
            T.lost = {which}
        got, has = T.create(attrs)
        es = {(k, T.key(r)) for k, r in T.entries}
        good = got == "refused" and not has or got == "made" and (attrs != (0,) or es == {(show(sym(nm)), k) for k, (m, nm) in H.rows.items()})
        c.require(good, f"made:{job}:{kind}:{which}", f"{say} when {'its read no. %d' % which if kind == 'read' else 'the read of page %d' % which} fails: {got}, with entries for {sorted(k for _, k in es)}, and the database {'has' if has else 'lacks'} it", f, what="indexes made over pages that cannot be read")


def upkeep(c):
    """I03"""
    c.rule_text = "every row a statement writes, and every row that is there when an index is made, gets an entry of its stored key in each index on one column of its table"
    jobs = []
    for gaps in (False, True):
        for kind, names in SOURCES.items():
            for src in script(3, width=len(names)):
                for at in (None, *range(len(src))):
                    jobs.append(("insert", gaps, None, (kind, src, at, None)))
        for there in ([11], [11, 21]):
            for src in script(2, width=2):
                jobs.append(("insert", gaps, None, ("same", src, None, (there, None))))
        for n in (1, 2, 3, 99, 100, 101, 205):
            rows = [[10 * i, None if gaps else 10 * i + 1] for i in range(1, n + 1)]
            for at in (None, 0, n - 1):
                jobs.append(("direct", gaps, None, (rows, at, None)))
            jobs.append(("direct", gaps, None, (rows[:3], None, ([11, 21], None))))
        for name in ASSIGN:
            for src in script(3, width=2):
                for style in ("assignment", "pairs"):
                    for at in (None, *range(len(src))):
                        jobs.append(("update", gaps, None, (name, src, at, style)))
    for lost in range(3):
        src = [[10 * i, 10 * i + 1] for i in range(1, 4)]
        jobs.append(("insert", False, lost, ("same", src, None, None)))
        jobs.append(("direct", False, lost, (src, None, None)))
        jobs.append(("direct", False, lost, (src * 40, None, None)))
        jobs += [("update", g, lost, ("b := f", src, None, "pairs")) for g in (False, True)]
    c.parallel(jobs, written)
    B, HALF = 3000, 1900
    jobs = []
    for sizes in ((), (B,), (20, 30, 40), (B, B), (HALF, HALF, HALF), (B, 20, B, 20), (B, B, B)):
        n = len(sizes)
        for k in range(min(n, 3) + 1):
            for gone in itertools.combinations(range(n), k):
                jobs.append((sizes, gone, (), (0,)))
        jobs.append((sizes, (), tuple(range(n)), (0,)))
        jobs += [(sizes, (), (), a) for a in ((0, 0), (3,))]
    c.parallel(jobs, made)
    c.floor("rows written by insert", 150)
    c.floor("rows written by update", 150)
    c.floor("rows that cannot be read back", 9)
    c.floor("indexes made over rows", 40)
    c.floor("indexes made over pages that cannot be read", 40)
