"""Table heaps: rows over chains of pages, and the scans that list them."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last, Session
from prog import AnchorError
from rules.pages import TP, META, TUPLE, MAX, Codec
from rules.operators import EXEC, X, PL

ST = "storage::table::"
HEAP = ST + "table_heap::TableHeap"
INFO = ST + "table_heap::TableInfo"
TXHEAP = ST + "transactional_table_heap::TransactionalTableHeap"
ITER = ST + "table_iterator::TableIterator"
SCAN = ST + "table_iterator::TableScanIterator"
GUARD = "storage::page::page_guard::PageGuard"
BPM = "buffer::buffer_pool_manager_async::BufferPoolManager"
RID = "common::rid::RID"
SEQ = X + "seq_scan_executor::SeqScanExecutor"
TSCAN = X + "table_scan_executor::TableScanExecutor"


class Heap:
    """a table heap over a store of real table pages, next to the rows it should hold"""

    def __init__(self, c, npages=8, first=20):
        self.c, self.codec = c, Codec(c)
        self.s = Session(c, intercept=self.icept, inline_drop=lambda u: True)
        new = c.P.method("storage::page::page_impl::Page", TP, "new")
        self.pages, self.held = {}, {}
        for i in range(npages):
            # ids do not rise along the chain
            pid = first + (i * 5) % 8
            k, v = self.s.call(new, I(pid))
            self.pages[pid] = self.s.alloc(v)
        self.free = list(self.pages)
        self.asked, self.fail_at, self.lost = 0, None, set()
        self.rows, self.hist, self.invisible = {}, [], set()
        self.bpm = self.s.alloc(adt("BPM", "", ()))
        self.me = self.s.alloc(self.make(HEAP + "::new", self.bpm, I(3)))

    def make(self, path, *a):
        k, v = self.s.call(path if isinstance(path, dict) else self.c.P.get(path), *a)
        if k != "return":
            raise AnchorError(f"{path} does not return: {k}")
        return v

    def fork(self):
        t = object.__new__(Heap)
        t.__dict__.update(self.__dict__)
        t.s = self.s.fork()
        t.s.kw = {**self.s.kw, "intercept": t.icept}
        for n in ("pages", "held", "rows"):
            setattr(t, n, dict(getattr(self, n)))
        t.free, t.hist, t.lost, t.invisible = list(self.free), list(self.hist), set(self.lost), set(self.invisible)
        t.codec = self.codec
        return t

    def opt(self, v):
        while v.k == "ref":
            v = self.s.load(v)
        return v

    # ---- stand-ins
    def guard(self, pid):
        self.held[pid] = self.held.get(pid, 0) + 1
        return adt("GUARD", str(pid), ())

    def fetch(self, pid):
        """whether the pool can produce the page: one in use is always there"""
        if self.held.get(pid):
            return True
        self.asked += 1
        return pid in self.pages and pid not in self.lost and self.asked - 1 != self.fail_at

    def icept(self, it, st, p, r, u, args, line):
        q = r or p
        n = last(p)
        if q.startswith(BPM + "::"):
            if n == "new_page":
                if not self.free:
                    return [(st, NONE)]
                return [(st, some(self.guard(self.free.pop(0))))]
            if n == "fetch_page":
                if args[1].k != "i":
                    raise AnchorError(f"a page is fetched whose number is not known: {show(args[1])[:200]}")
                pid = args[1].a[0]
                return [(st, some(self.guard(pid)) if self.fetch(pid) else NONE)]
            return None
        if GUARD in q and args:
            x = args[0]
            while x.k == "ref":
                x = it.deref(st, x)
            if x.k == "adt" and x.a[0] == "GUARD":
                pid = int(x.a[1])
                if n in ("read", "write"):
                    return [(st, self.pages[pid])]
                if n == "get_page_id":
                    return [(st, I(pid))]
                if n == "drop":
                    self.held[pid] -= 1
                    return [(st, UNIT)]
        if q == TXHEAP + "::get_tuple":
            x = args[1]
            pid, slot = it.proj(x, (".", "page_id")), it.proj(x, (".", "slot_num"))
            key = (pid.a[0], slot.a[0])
            if not self.fetch(pid.a[0]):
                return [(st, err(sym("no page")))]
            if key in self.rows and key not in self.invisible:
                return [(st, ok(tup(*self.shown[key])))]
            return [(st, err(sym("not visible")))]
        if n == "get_catalog" or n == "get_transaction_context":
            return [(st, sym(n))]
        if n in ("get_table_by_oid", "get_table") and "catalog" in q:
            return [(st, some(self.info))]
        if n == "is_null" and q.startswith("types_db::"):
            return [(st, FALSE)]
        if q == TUPLE + "::new":
            v = args[0]
            while v.k == "ref":
                v = it.deref(st, v)
            return [(st, self.c.obj(TUPLE, "new", values=v, rid=args[2]))]
        return self.codec(it, st, p, r, u, args, line)

    # ---- rows
    def meta(self, deleted=False, n=0):
        return self.c.obj(META, "m", creator_txn_id=I(5 + n), commit_timestamp=some(I(9)), deleted=I(int(deleted)), undo_log_idx=NONE)

    def rid(self, key):
        return self.c.obj(RID, "rid", page_id=I(key[0]), slot_num=I(key[1]))

    def key(self, r):
        it = self.s.o.interp
        while r.k == "ref":
            r = self.s.load(r)
        a, b = it.proj(r, (".", "page_id")), it.proj(r, (".", "slot_num"))
        return (a.a[0], b.a[0]) if a.k == b.k == "i" else (show(r), 0)

    def insert(self, size, how="insert_tuple"):
        nm = self.codec.name()
        place = (0, 0)
        if how != "insert_tuple_from_values" and size < 4000:
            # these take rows that already carry the place they get
            T = self.fork()
            k, r = T.insert(size, "insert_tuple_from_values")
            if k != "ok":
                return k, None
            place = r[0]
        t = self.codec.tuple(nm, size, self.rid(place))
        m = self.meta()
        if how == "insert_tuple_from_values":
            a = [L(sym(nm)), self.schema(), self.s.alloc(m)]
        else:
            a = [self.s.alloc(m), self.s.alloc(t)]
        k, v = self.s.call(self.c.P.get(f"{HEAP}::{how}"), self.me, *a)
        self.hist.append(f"{how} {size}")
        if k != "return":
            return k, None
        if v.a[1] != "Ok":
            return "refused", None
        key = self.key(v.a[2][0][1])
        return ("taken" if key in self.rows else "ok"), (key, m, nm)

    def schema(self):
        if not hasattr(self, "_schema"):
            col = self.make("catalog::column::Column::new", self.s.alloc(mk("s", "a")), unit("types_db::type_id::TypeId", "Integer"))
            self._schema = self.make("catalog::schema::Schema::new", L(col))
        return self.s.alloc(self._schema)

    def delete(self, key):
        m = self.meta(True)
        k, v = self.s.call(self.c.P.get(HEAP + "::update_tuple_meta"), self.me, self.s.alloc(m), self.rid(key))
        self.hist.append(f"delete {key}")
        if k != "return" or v.a[1] != "Ok":
            raise AnchorError(f"a row cannot be marked deleted: {show(v)[:80]}")
        self.rows[key] = (m, self.rows[key][1])

    def reopen(self, last_page):
        it = self.s.o.interp
        h = self.s.load(self.me)
        first = next(iter(self.pages))
        self.me = self.s.alloc(self.make(HEAP + "::reopen", self.bpm, I(3), I(first), I(last_page)))
        self.hist.append(f"reopen with {last_page} as its last page" if last_page != MAX else "reopen with its last page unknown")

    def live(self):
        it = self.s.o.interp
        return {k: nm for k, (m, nm) in self.rows.items() if it.proj(m, (".", "deleted")) == I(0)}

    # ---- scans
    def begin(self):
        self.asked, self.held = 0, {}
        self.schema()
        self.infov = self.make(INFO + "::new", self._schema, mk("s", "t"), self.me, I(3))
        self.info = self.s.alloc(self.infov)
        # what the transaction's own view of a row hands out
        self.shown = {k: (self.s.alloc(m), self.s.alloc(self.c.obj(TUPLE, nm, values=L(sym(nm)), rid=self.rid(k)))) for k, (m, nm) in self.rows.items()}

    def item(self, v):
        """(row id, name) of a tuple"""
        it = self.s.o.interp
        while v.k == "ref":
            v = self.s.load(v)
        return self.key(it.proj(v, (".", "rid"))), show(elems(it.proj(v, (".", "values")))[0])

    def raw(self, ty, txn, limit):
        """what the iterator lists: (row id of the tuple, its name, row id the iterator names)"""
        c = self.c
        if ty == SCAN:
            me = self.s.alloc(self.make(SCAN + "::new", self.info))
            named = c.P.get(SCAN + "::get_rid")
        else:
            th = self.s.alloc(self.make(TXHEAP + "::new", self.me, I(3)))
            me = self.s.alloc(self.make(TXHEAP + "::make_iterator", th, some(sym("txn")) if txn else NONE))
            named = c.P.get(ITER + "::get_last_rid")
        nxt = c.P.method("core::iter::traits::iterator::Iterator", ty, "next")
        out = []
        for _ in range(limit):
            k, v = self.s.call(nxt, me)
            if k != "return":
                return out, k
            if v.a[1] == "None":
                return out, "end"
            it = self.s.o.interp
            rid, nm = self.item(it.proj(v.a[2][0][1], (".", "1")))
            m = it.proj(v.a[2][0][1], (".", "0"))
            m = self.s.load(m) if m.k == "ref" else m
            k, w = self.s.call(named, me)
            if ty != SCAN:
                w = w.a[2][0][1] if w.k == "adt" and w.a[1] == "Some" else None
            # a transaction is also handed the rows it sees as deleted, marked so
            if it.proj(m, (".", "deleted")) == I(0):
                out.append((rid, nm, self.key(w) if w is not None else None))
        return out, "no end"

    def executor(self, ty, limit):
        c, s = self.c, self.s
        if ty == SEQ:
            plan = c.obj(PL + "seq_scan_plan::SeqScanPlanNode", "plan", table_oid=I(3))
            th = s.alloc(self.make(TXHEAP + "::new", self.me, I(3)))
            ex = c.obj(SEQ, "ex", initialized=FALSE, iterator=NONE, plan=s.alloc(plan), context=s.alloc(sym("context")), table_heap=th)
        else:
            plan = c.obj(PL + "table_scan_plan::TableScanNode", "plan", table_info=self.infov)
            ex = c.obj(TSCAN, "ex", initialized=FALSE, iterator=NONE, plan=s.alloc(plan), context=s.alloc(sym("context")))
        me = s.alloc(ex)
        k, v = s.call(c.P.method(EXEC, ty, "init"), me)
        if k != "return":
            return [], "init " + k
        nxt = c.P.method(EXEC, ty, "next")
        out = []
        while len(out) < limit:
            k, v = s.call(nxt, me)
            if k != "return":
                return out, k
            if v.a[1] == "Err":
                return out, "failure"
            v = v.a[2][0][1]
            if v.a[1] == "None":
                return out, "end"
            it = s.o.interp
            rid, nm = self.item(it.proj(v.a[2][0][1], (".", "0")))
            out.append((rid, nm, self.key(it.proj(v.a[2][0][1], (".", "1")))))
        return out, "no end"

    def scan(self, how):
        self.begin()
        n = len(self.rows) + 3
        if how in (SEQ, TSCAN):
            return self.executor(how, n)
        return self.raw(ITER if how.startswith(ITER) else SCAN, how.endswith("txn"), n)


WAYS = (SEQ, TSCAN, SCAN, ITER, ITER + " txn")
NAMES = {SEQ: "sequential scan", TSCAN: "table scan", SCAN: "scan iterator", ITER: "table iterator", ITER + " txn": "table iterator of a transaction"}


def fn_of(c, how):
    if how in (SEQ, TSCAN):
        return c.P.method(EXEC, how, "next")
    return c.P.method("core::iter::traits::iterator::Iterator", how.split()[0], "next")


def listed(c, H, how, key):
    """a scan of H lists every row once, under its own row id"""
    sees = H.live() if how in (TSCAN, SCAN, ITER) else {k: v for k, v in H.live().items() if k not in H.invisible}
    T = H.fork()
    out, end = T.scan(how)
    want = sorted((k, show(sym(v)), k) for k, v in sees.items())
    c.require(end == "end" and sorted(out, key=str) == sorted(want, key=str), f"scan:{key}:{how}",
              f"{NAMES[how]} after {'; '.join(H.hist[-9:])}: lists {[(o[0], o[2]) for o in out]}, then {end}; the rows are {[w[0] for w in want]}", fn_of(c, how), what="scans")
    return T.asked


def broken(c, H, how, key, n):
    """a page that cannot be read: the scan says so, unless it has every row"""
    sees = H.live() if how == TSCAN else {k: v for k, v in H.live().items() if k not in H.invisible}
    want = {(k, show(sym(v)), k) for k, v in sees.items()}
    for kind, which in [("read", i) for i in range(n)] + [("page", p) for p in list(H.pages)[:len(H.pages) - len(H.free)]]:
        T = H.fork()
        if kind == "read":
            T.fail_at = which
        else:
            T.lost = {which}
        out, end = T.scan(how)
        good = len(set(out)) == len(out) and set(out) <= want and (end == "failure" or end == "end" and set(out) == want)
        c.require(good, f"fails:{key}:{how}:{kind}:{which}",
                  f"{NAMES[how]} after {'; '.join(H.hist[-9:])} when {'its read no. %d' % which if kind == 'read' else 'the read of page %d' % which} fails: lists {[o[0] for o in out]}, then {end}; the rows are {sorted(sees)}",
                  fn_of(c, how), what="scans over pages that cannot be read")


def history(c, job):
    how, sizes, gone, hidden, reopened = job
    H = Heap(c)
    f = c.P.get(f"{HEAP}::{how}")
    get, gmeta = c.P.get(HEAP + "::get_tuple"), c.P.get(HEAP + "::get_tuple_meta")
    key = f"{how}:{sizes}:{gone}:{hidden}:{reopened}"
    for i, size in enumerate(sizes):
        before = list(H.free)
        k, r = H.insert(size, how)
        want = "ok" if size < 4000 else "refused"
        if not c.require(k == want, f"insert:{key}:{i}", f"table heap: {'; '.join(H.hist[-9:])}: the last insert is {k} (should be {want})", f, what="inserts"):
            return
        if r:
            H.rows[r[0]] = (r[1], r[2])
        else:
            c.require(H.free == before, f"insert:{key}:{i}:pages", f"table heap: {'; '.join(H.hist[-9:])}: a refused row takes a page", f)
        if reopened == i:
            H.reopen(MAX)
        elif reopened == -i - 1:
            used = list(H.pages)[:len(H.pages) - len(H.free)]
            H.reopen(used[len(used) // 2 - 1] if len(used) > 1 else used[0])
    ks = sorted(H.rows, key=list(H.rows).index)
    for g in gone:
        if g < len(ks):
            H.delete(ks[g])
    H.invisible = {ks[h] for h in hidden if h < len(ks)}
    for rk, (m, nm) in H.rows.items():
        T = H.fork()
        k, v = T.s.call(get, T.me, T.rid(rk))
        dele = rk not in H.live()
        it = T.s.o.interp
        good = k == "return" and (v.a[1] == "Err" if dele else v.a[1] == "Ok" and T.item(it.proj(v.a[2][0][1], (".", "1"))) == (rk, show(sym(nm))))
        c.require(good, f"get:{key}:{rk}", f"table heap: {'; '.join(H.hist[-9:])}: the row at {rk} is {'there' if dele else 'not the row inserted there'}", get, what="rows read by their row id")
    n = 0
    for w in WAYS:
        n = max(n, listed(c, H, w, key))
    if len(H.pages) - len(H.free) <= 3:
        for w in (SEQ, TSCAN):
            broken(c, H, w, key, n)


def scans(c):
    """T01"""
    c.rule_text = "over chains of pages, every inserted row is read back by its row id and listed exactly once by every scan, under that id; a scan that cannot read a page ends in failure"
    B, HALF = 3000, 1900
    jobs = []
    for how in ("insert_tuple", "insert_tuple_internal", "insert_tuple_from_values"):
        for sizes in ((), (B,), (20, 30, 40), (B, B), (HALF, HALF, HALF), (B, 20, B, 20), (B, 4050, 20), (B, B, B), (4050,)):
            jobs.append((how, sizes, (), (), None))
    sizes = (HALF, HALF, 20, HALF, HALF)
    for k in range(4):
        for gone in itertools.combinations(range(5), k):
            jobs.append(("insert_tuple", sizes, gone, (), None))
            jobs.append(("insert_tuple_internal", sizes, (), gone, None))
    for how in ("insert_tuple", "insert_tuple_from_values"):
        for i in range(5):
            for r in (i, -i - 1):
                jobs.append((how, (B, B, B, B, B, 20), (1, 4), (2,), r))
    c.parallel(jobs, history)
    c.floor("scans", 100)
    c.floor("inserts", 60)
    c.floor("rows read by their row id", 60)
    c.floor("scans over pages that cannot be read", 60)
