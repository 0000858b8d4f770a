"""Transactions: lifecycle, watermark, visibility, writes, rollback."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, cell, last
from prog import AnchorError
from rules.locks import nodeadlock, ISO, STATES

TM = "concurrency::transaction_manager::"
TX = "concurrency::transaction::"
TH = "storage::table::table_heap::TableHeap::"
TTH = "storage::table::transactional_table_heap::TransactionalTableHeap::"
TP = "storage::page::page_types::table_page::TablePage::"
META = "storage::table::tuple::TupleMeta"
CTX = "sql::execution::transaction_context::TransactionContext"
FAC = "concurrency::transaction_manager_factory::TransactionManagerFactory"
MAX = (1 << 64) - 1
OID = 7


def lockcell(v):
    return adt("Cell", "", (("data", v),))


def atomic(v):
    return adt("Atomic", "", (("v", v),))


class World:
    """a transaction manager, its transactions and one row, as a store of abstract objects"""

    def __init__(self, c):
        self.c = c
        self.mem, self.n = {}, 0
        self.txns = {}
        self.rid = c.obj("common::rid::RID", "rid", page_id=I(9), slot_num=I(3))

    def heap(self, v):
        self.n += 1
        root = ("H", f"x{self.n}")
        self.mem[root] = v
        return ref(root)

    def tuple(self, name):
        return self.c.obj("storage::table::tuple::Tuple", name, values=L(mk("arg", 0, name)), rid=self.rid)

    def link(self, t, i):
        return self.c.obj(TX + "UndoLink", "l", prev_txn=I(t), prev_log_idx=I(i))

    def meta(self, creator, ts, deleted=False, idx=None):
        return self.c.obj(META, "m", creator_txn_id=I(creator), commit_timestamp=NONE if ts is None else some(I(ts)), deleted=I(int(deleted)),
                          undo_log_idx=NONE if idx is None else some(I(idx)))

    def log(self, tup, ts, prev, by_delete=False):
        return self.heap(self.c.obj(TX + "UndoLog", "u", is_deleted=I(int(by_delete)), modified_fields=L(I(1)), tuple=self.heap(tup),
                                    ts=I(MAX if ts is None else ts), prev_version=prev, original_rid=some(self.rid)))

    def txn(self, t, iso="Snapshot", state="Running", read_ts=0, commit_ts=0, logs=(), writes=()):
        ws = M((I(OID), M(*((r, UNIT) for r in writes)))) if writes else M()
        p = self.heap(self.c.obj(TX + "Transaction", f"t{t}", txn_id=I(t), isolation_level=unit(TX + "IsolationLevel", iso),
                                 state=lockcell(unit(TX + "TransactionState", state)), read_ts=lockcell(I(read_ts)), commit_ts=lockcell(I(commit_ts)),
                                 undo_logs=lockcell(L(*logs)), write_set=lockcell(ws), scan_predicates=lockcell(M()), prev_lsn=lockcell(I(0))))
        self.txns[t] = p
        return p

    def tm(self, active=(), next_ts=50, links=(), shutdown=0, table=None, known=None, wm=None):
        """the manager; links: [(rid, link)] on the page, active: registered read timestamps"""
        wm = (min(active) if active else next_ts) if wm is None else wm
        w = self.c.obj("concurrency::watermark::Watermark", "w", active_txns=M(*((I(t), UNIT) for t in active)), watermark=I(wm), next_ts=atomic(I(next_ts)))
        vi = M((I(9), self.heap(self.c.obj(TM + "PageVersionInfo", "pv", prev_link=lockcell(M(*links)))))) if links else M()
        st = self.c.obj(TM + "TransactionManagerState", "s", running_txns=lockcell(w), version_info=lockcell(vi), is_shutdown=atomic(I(shutdown)),
                        txn_map=lockcell(M(*((I(t), p) for t, p in self.txns.items() if known is None or t in known))),
                        table_heaps=lockcell(M((I(OID), table)) if table is not None else M()))
        self.state = self.heap(st)
        self.mgr = self.heap(self.c.obj(TM + "TransactionManager", "tm", next_txn_id=self.heap(atomic(I(90))), state=self.state))
        return self.mgr

    def ctx(self, t):
        return self.heap(self.c.obj(CTX, "ctx", transaction=self.txns[t], transaction_manager=self.mgr, lock_manager=sym("lockmgr")))

    def table(self):
        self.th = self.heap(self.c.obj(TH[:-2], "heap", table_oid=I(OID), latch=lockcell(UNIT)))
        return self.heap(self.c.obj(TTH[:-2], "tth", table_heap=self.th, table_oid=I(OID)))

    # -- reading a state back
    def at(self, o, p, *path):
        it = o.interp
        v = it.deref(o.state, p)
        for n in path:
            v = it.proj(v, (".", n))
        return v

    def tstate(self, o, t):
        return self.at(o, self.txns[t], "state", "data").a[1]

    def get(self, o, t, f):
        return self.at(o, self.txns[t], f, "data")

    def links(self, o):
        r = {}
        for _, p in pairs(self.at(o, self.state, "version_info", "data")):
            for k, v in pairs(self.at(o, p, "prev_link", "data")):
                r[k] = (o.interp.proj(v, (".", "prev_txn")), o.interp.proj(v, (".", "prev_log_idx")))
        return r

    def wmark(self, o):
        w = self.at(o, self.state, "running_txns", "data")
        g = lambda n: o.interp.proj(w, (".", n))
        return {k.a[0] for k, _ in pairs(g("active_txns"))}, g("watermark"), o.interp.proj(g("next_ts"), (".", "v"))

    def known(self, o):
        return {k.a[0] for k, _ in pairs(self.at(o, self.state, "txn_map", "data"))}


class Row:
    """one row's versions, newest first: (creator, commit ts or None, deleted)"""

    def __init__(self, w, versions, tuples="v"):
        self.w, self.vs = w, versions
        # the newest version is on the page; version i+1 is in an undo log of version i's creator
        n = len(versions)
        self.tuples = [w.tuple(f"{tuples}{i}") for i in range(n)]
        logs = {}
        idx = [None] * n
        for i in range(n - 2, -1, -1):
            cr, _, dele = versions[i]
            o_cr, o_ts, _ = versions[i + 1]
            prev = w.link(o_cr, MAX if idx[i + 1] is None else idx[i + 1])
            ls = logs.setdefault(cr, [])
            idx[i] = len(ls)
            ls.append(w.log(self.tuples[i + 1], o_ts, prev, dele))
        self.logs = logs
        cr, ts, dele = versions[0]
        self.meta = w.meta(cr, ts, dele, idx[0])
        self.links = [(w.rid, w.link(cr, idx[0]))] if n > 1 else []

    def visible(self, iso, me, read_ts):
        """the index of the version a reader sees, or None"""
        for i, (cr, ts, dele) in enumerate(self.vs):
            if iso == "ReadUncommitted" or cr == me or ts is not None and (iso == "ReadCommitted" or ts <= read_ts):
                return None if dele else i
        return None


def page(row, changed=None, full=False, fail_fetch=False, log=None):
    """stand-ins for the buffer pool and the page: fetch a page, read the row, write it"""
    guard = mk("pageguard")

    def f(it, st, p, r, u, args, line):
        n = last(r)
        own = r.startswith(TP) or r.startswith(TH)
        if r == TH + "get_page" or n in ("fetch_page", "fetch_page_async") and "BufferPoolManager" in r:
            fetched = some(guard) if n != "get_page" else ok(guard)
            missing = NONE if n != "get_page" else err(S("no page"))
            return [(st, missing if fail_fetch else fetched)]
        if "PageGuard" in r and n in ("read", "write"):
            return [(st, mk("pageref"))]
        if "PageReadGuard" in r or "PageWriteGuard" in r:
            return [(st, mk("pageref"))]
        if r == TP + "get_tuple":
            allow = args[2]
            cur = st.mem.get(("H", "rowmeta"), row.meta)
            dele = it.proj(cur, (".", "deleted")) == I(1)
            if dele and allow == I(0):
                return [(st, err(sym("deleted")))]
            return [(st, ok(tup(cur, row.tuples[0])))]
        if r == TP + "get_tuple_meta":
            return [(st, ok(row.meta if changed is None else changed))]
        if r in (TP + "update_tuple", TP + "update_tuple_meta"):
            it.event(st, "call", n, tuple(it.deref(st, a) if a.k == "ref" else a for a in args[1:]), None, line)
            if full and n == "update_tuple":
                return [(st, err(sym("full")))]
            return [(st, ok(UNIT))]
        if n == "get_column_count":
            return [(st, I(1))]
        return None
    return f


def visibility(c):
    """C07: the version a reader sees"""
    # histories of one row, newest version first; reader is transaction 5 (its read timestamp varies); 6 is another running transaction
    H = []
    C = [(t, ts) for t, ts in ((1, 10), (2, 20), (3, 30))]
    comm = [[(2, 20, False), (1, 10, False)], [(1, 10, False)], [(3, 30, False), (2, 20, False), (1, 10, False)]]
    for base in comm:
        for top in ([], [(6, None, False)], [(6, None, False), (6, None, False)], [(5, None, False)], [(5, None, False), (5, None, False)], [(6, None, True)], [(5, None, True)],
                    [(6, None, True), (6, None, False)], [(5, None, True), (5, None, False)], [(4, 40, True)], [(4, 40, False), (4, None, False)], [(4, 40, True), (4, None, False)],
                    [(6, None, False), (4, 40, False), (4, None, False)]):
            H.append(top + base)
    H += [[(6, None, False)], [(5, None, False)], [(5, None, True)], [(6, None, True)]]
    readers = [TTH + "get_tuple", TH + "get_tuple_with_txn"]
    for path in readers:
        f = c.P.get(path)
        for h in H:
            own = [i for i, v in enumerate(h) if v[0] == 5]
            for iso in ISO:
                for rts in (0, 5, 10, 15, 20, 25, 30, 35, 40, 45) if c.tier == "thorough" else (5, 10, 15, 20, 25, 30, 40, 45):
                    if iso in ("ReadUncommitted", "ReadCommitted") and rts not in (15, 45):
                        continue
                    w = World(c)
                    row = Row(w, h)
                    for t in {1, 2, 3, 4, 5, 6}:
                        ts = next((v[1] for v in h if v[0] == t and v[1]), None)
                        w.txn(t, iso if t == 5 else "Snapshot", "Running" if t in (5, 6) else "Committed", rts if t == 5 else 1, ts or 0, row.logs.get(t, ()))
                    tb = w.table()
                    w.tm(active=(rts,), links=row.links)
                    cx = w.ctx(5)
                    key = f"{last(path)}:{iso}:{rts}:{h}"
                    what = f"{path.split('::')[-2]}::{last(path)}: versions {show_row(h)}, a reader at {iso} with read timestamp {rts}"
                    want = row.visible(iso, 5, rts)
                    for o in c.explore(f, [tb if path.startswith(TTH) else w.th, w.rid, cx], w.mem, seq=True, intercept=page(row)):
                        if o.kind != "return":
                            c.require(False, key, f"{what}: {o.kind}", f)
                            continue
                        got = None
                        if o.value.k == "adt" and o.value.a[1] == "Ok":
                            tp = o.interp.deref(o.state, o.value.a[2][0][1].a[1]) if o.value.a[2][0][1].k == "tup" else None
                            tp = tup_field(o, o.value.a[2][0][1], 1)
                            got = next((i for i, t in enumerate(row.tuples) if t == tp), "?")
                        c.require(got == want, key, f"{what}: sees {'nothing' if got is None else 'version ' + str(got)}, should see {'nothing' if want is None else 'version ' + str(want)}",
                                  f, what="reads of a version history")
                        nodeadlock(c, o, key, what, f)
    c.floor("reads of a version history", 800)


def tup_field(o, v, i):
    x = o.interp.proj(v, (".", str(i)))
    return o.interp.deref(o.state, x) if x.k == "ref" else x


def show_row(h):
    return " <- ".join(f"T{t}{'@' + str(ts) if ts is not None else ' uncommitted'}{' deleted' if d else ''}" for t, ts, d in h)


# ---------------------------------------------------------------- writes and rollback
def through(it, st, v):
    """the innermost pointer of a pointer to a pointer"""
    while v.k == "ref" and it.deref(st, v).k == "ref":
        v = it.deref(st, v)
    return v


def same_tuple(o, v, t):
    while v.k == "ref":
        v = o.interp.deref(o.state, v)
    return v == t


def meta_of(o, v):
    g = lambda n: o.interp.proj(v, (".", n))
    opt = lambda x: None if x.k == "adt" and x.a[1] == "None" else (x.a[2][0][1].a[0] if x.k == "adt" and x.a[2][0][1].k == "i" else "?")
    return g("creator_txn_id").a[0], opt(g("commit_timestamp")), g("deleted").a[0] == 1, opt(g("undo_log_idx"))


ROWS = [
    [(1, 10, False)], [(2, 20, False), (1, 10, False)], [(1, 10, True)], [(2, 40, False), (1, 10, False)], [(2, 40, True), (1, 10, False)],
    [(5, None, False)], [(5, None, False), (1, 10, False)], [(5, None, False), (5, None, False), (2, 20, False), (1, 10, False)], [(5, None, True), (1, 10, False)],
    [(6, None, False)], [(6, None, False), (1, 10, False)], [(6, None, True), (1, 10, False)], [(6, None, False), (2, 20, False), (1, 10, False)],
]


def scene(c, h, iso="Snapshot", state="Running", read_ts=30, extra=(), writes=None):
    """a world with row history h; transaction 5 acts; extra: its undo logs on other rows come first"""
    w = World(c)
    row = Row(w, h)
    if writes is None:
        writes = [w.rid] if h[0][0] == 5 else []
    for t in (1, 2, 5, 6):
        ts = next((v[1] for v in h if v[0] == t and v[1]), None)
        w.txn(t, iso if t == 5 else "Snapshot", state if t == 5 else "Running" if t == 6 else "Committed", read_ts if t == 5 else 1, ts or 0,
              row.logs.get(t, ()), writes if t == 5 else ())
    w.tb = w.table()
    w.tm(active=(read_ts,), links=row.links, table=w.tb)
    return w, row


def writes(c):
    """C08"""
    fu, fd = c.P.get(TTH + "update_tuple"), c.P.get(TTH + "delete_tuple")
    for f in (fu, fd):
        dele = f is fd
        for h in ROWS:
            for iso in ISO:
                for state in STATES if h is ROWS[0] or h is ROWS[5] else ("Running",):
                    for fault in ("", "changed", "full"):
                        if fault and (iso not in ("ReadCommitted", "Snapshot") or state != "Running"):
                            continue
                        w, row = scene(c, h, iso, state)
                        cx = w.ctx(5)
                        new = w.tuple("new")
                        newp = w.heap(new)
                        cr, ts, gone = h[0]
                        changed = w.meta(6, None, False, 0) if fault == "changed" else None
                        seen = {}
                        base = page(row, changed=changed, full=fault == "full")

                        def icept(it, st, p, r, u, args, line, base=base, w=w, seen=seen):
                            if r == TP + "update_tuple":
                                class O:
                                    interp, state = it, st
                                seen["link"] = w.links(O).get(w.rid)
                            return base(it, st, p, r, u, args, line)
                        want = state == "Running" and not gone and (cr == 5 or ts is not None) and not (ts and ts > 30 and iso in ("RepeatableRead", "Serializable", "Snapshot")) and not fault
                        n0 = len(row.logs.get(5, ()))
                        link0 = (I(h[0][0]), o_idx(row)) if len(h) > 1 else None
                        key = f"{last(f['p'])}:{iso}:{state}:{fault}:{h}"
                        what = f"{last(f['p'])} by {state} transaction 5 at {iso} (read timestamp 30) on {show_row(h)}" + {"": "", "changed": ", which another transaction changes meanwhile",
                                                                                                                       "full": ", when the page refuses the write"}[fault]
                        args = [w.tb, w.rid, cx] if dele else [w.tb, sym("ignored"), newp, w.rid, cx]
                        for o in c.explore(f, args, w.mem, seq=True, intercept=icept):
                            if o.kind != "return":
                                c.require(False, key, f"{what}: {o.kind}", f)
                                continue
                            nodeadlock(c, o, key, what, f)
                            okv = o.value.k == "adt" and o.value.a[1] == "Ok"
                            ev = [e for e in o.events if e.kind == "call" and e.name in ("update_tuple", "update_tuple_meta")]
                            c.require(okv == want, key, f"{what} {'succeeds' if okv else 'is refused'}", f, what="writes accepted" if want else "writes refused")
                            logs = elems(w.get(o, 5, "undo_logs"))
                            c.require(list(logs[:n0]) == list(row.logs.get(5, ())), key + ":logs", f"{what} changes the earlier undo log entries", f)
                            now = w.links(o).get(w.rid)
                            if not okv:
                                c.require(not [e for e in ev if fault != "full"], key + ":page", f"{what} is refused but the row is written", f, what="refused writes that leave the row")
                                c.require(now == link0, key + ":link", f"{what} is refused but its undo link becomes {lk(now)} instead of {lk(link0)}", f, what="refused writes that leave the undo link")
                                continue
                            if not want:
                                continue
                            good = len(ev) == 1 and ev[0].name == "update_tuple"
                            c.require(good, key + ":page", f"{what} succeeds with {len(ev)} writes to the row", f, what="accepted writes")
                            if not good:
                                continue
                            m = meta_of(o, ev[0].args[0])
                            c.require(m[:3] == (5, None, dele), key + ":meta", f"{what} writes metadata {m}; it must be its own, uncommitted and {'deleted' if dele else 'live'}", f, what="accepted writes")
                            c.require(same_tuple(o, ev[0].args[1], row.tuples[0] if dele else new), key + ":tuple", f"{what} writes the wrong tuple {show(ev[0].args[1])[:80]}", f)
                            idx = m[3]
                            lg = logs[idx] if isinstance(idx, int) and idx < len(logs) else None
                            c.require(lg is not None and idx >= n0, key + ":idx", f"{what}: the row's undo log index is {idx}, there are {n0} earlier entries and {len(logs)} now", f)
                            if lg is None:
                                continue
                            g = lambda *ns: w.at(o, lg, *ns)
                            c.require(same_tuple(o, g("tuple"), row.tuples[0]), key + ":undo", f"{what}: the undo entry does not hold the replaced tuple", f, what="undo entries")
                            c.require(g("ts") == I(MAX if ts is None else ts), key + ":undots", f"{what}: the undo entry's timestamp is {show(g('ts'))}, the replaced version's is {ts}", f, what="undo entries")
                            c.require(g("prev_version", "prev_txn") == I(cr) and (g("prev_version", "prev_log_idx") == o_idx(row) or len(h) == 1 and g("prev_version", "prev_log_idx") == I(MAX)),
                                      key + ":prev", f"{what}: the undo entry leads to {show(g('prev_version'))}", f, what="undo entries")
                            c.require(now == (I(5), I(idx)), key + ":link", f"{what}: the row's undo link is {lk(now)}", f, what="undo links of accepted writes")
                            c.require(seen.get("link") == (I(5), I(idx)), key + ":order", f"{what}: when the row is overwritten its undo link is {lk(seen.get('link'))}, so a reader loses the old version",
                                      f, what="undo links in place before the row changes")
                            ws = {k.a[0]: [r for r, _ in pairs(v)] for k, v in pairs(w.get(o, 5, "write_set"))}
                            c.require(w.rid in ws.get(OID, []), key + ":ws", f"{what}: the row is not in the write set", f, what="rows in the write set")
    # inserts
    fi, fv = c.P.get(TTH + "insert_tuple"), c.P.get(TTH + "insert_tuple_from_values")
    for f in (fi, fv):
        for state in STATES:
            for lock in ("granted", "refused", "error"):
                for heap_ok in (True, False):
                    for bad in (None, "creator", "committed", "deleted", "undo") if f is fi and state == "Running" and lock == "granted" and heap_ok else (None,):
                        w, row = scene(c, ROWS[0], "ReadCommitted", state)
                        cx = w.ctx(5)
                        rid = c.obj("common::rid::RID", "rid", page_id=I(9), slot_num=I(4))
                        got = []

                        def icept(it, st, p, r, u, args, line, w=w, lock=lock, heap_ok=heap_ok, rid=rid):
                            n = last(r)
                            if n == "lock_table":
                                it.event(st, "call", "lock_table", (args[2], args[3]), None, line)
                                return [(st, {"granted": ok(TRUE), "refused": ok(FALSE), "error": err(sym("lockerr"))}[lock])]
                            if r.startswith(TH) and n in ("insert_tuple_internal", "insert_tuple", "insert_tuple_from_values"):
                                m = next((it.deref(st, a) for a in args[1:] if a.k == "ref" and it.deref(st, a).k == "adt" and it.deref(st, a).a[0] == META), None)
                                it.event(st, "call", "heap_insert", (m,), None, line)
                                return [(st, ok(rid) if heap_ok else err(sym("full")))]
                            if n == "expand_values_for_schema":
                                return [(st, ok(sym("expanded")))]
                            return None
                        m = {None: w.meta(5, None), "creator": w.meta(6, None), "committed": w.meta(5, 10), "deleted": w.meta(5, None, True), "undo": w.meta(5, None, False, 0)}[bad]
                        args = [w.tb, w.heap(m), w.heap(w.tuple("new")), cx] if f is fi else [w.tb, sym("values"), sym("schema"), cx]
                        want = state == "Running" and lock == "granted" and heap_ok and not bad
                        key = f"{last(f['p'])}:{state}:{lock}:{heap_ok}:{bad}"
                        what = f"{last(f['p'])} by a {state} transaction, table lock {lock}" + ("" if heap_ok else ", no space") + (f", metadata with a wrong {bad}" if bad else "")
                        for o in c.explore(f, args, w.mem, seq=True, intercept=icept):
                            okv = o.value.k == "adt" and o.value.a[1] == "Ok"
                            c.require(o.kind == "return" and okv == want, key, f"{what}: {'succeeds' if okv else 'is refused'}", f, what="inserts accepted" if want else "inserts refused")
                            ins = [e for e in o.events if e.kind == "call" and e.name == "heap_insert"]
                            lks = [e for e in o.events if e.kind == "call" and e.name == "lock_table"]
                            ws = {k.a[0]: [r for r, _ in pairs(v)] for k, v in pairs(w.get(o, 5, "write_set"))}.get(OID, [])
                            if okv:
                                good = len(ins) == 1 and ins[0].args[0] is not None and meta_of(o, ins[0].args[0]) == (5, None, False, None)
                                c.require(good, key + ":meta", f"{what}: the row is not inserted once as its own uncommitted version", f, what="inserts accepted")
                                c.require(len(lks) == 1 and lks[0].args[0].a[1] in ("IntentionExclusive", "Exclusive", "SharedIntentionExclusive") and lks[0].args[1] == I(OID),
                                          key + ":lock", f"{what}: inserts without an (intention) exclusive lock on its table", f)
                                c.require(rid in ws, key + ":ws", f"{what}: the row is not in the write set", f, what="rows in the write set")
                            elif heap_ok:
                                c.require(not ins, key + ":none", f"{what}: refused, yet the row is inserted", f, what="inserts refused")
    for k, n in (("writes accepted", 40), ("writes refused", 60), ("undo entries", 90), ("inserts refused", 40), ("refused writes that leave the undo link", 60)):
        c.floor(k, n)


def o_idx(row):
    v = row.meta.a[2]
    x = dict(v)["undo_log_idx"]
    return x.a[2][0][1] if x.a[1] == "Some" else I(MAX)


def lk(x):
    return "absent" if x is None else f"({show(x[0])}, {show(x[1])})"


def rollback(c):
    """C09: an abort puts every row back"""
    fr = c.P.get(TM + "TransactionManager::rollback_row")
    fa = c.P.get(TM + "TransactionManager::abort")
    for h in ROWS:
        for via in ("row", "abort"):
            for full in (False, True):
                w, row = scene(c, h, writes=[w_rid(c)] if True else None)
                f = fr if via == "row" else fa
                own = 0
                while own < len(h) and h[own][0] == 5:
                    own += 1
                base = h[own] if own < len(h) else None
                key = f"{via}:{full}:{h}"
                what = f"rolling back transaction 5 on {show_row(h)}" + (" when the page refuses the write" if full else "")
                args = [w.mgr, w.txns[5], w.th, w.rid] if via == "row" else [w.mgr, w.txns[5]]
                pi = page(row, full=full)
                for o in c.explore(f, args, w.mem, seq=True, intercept=pi):
                    if o.kind != "return":
                        c.require(False, key, f"{what}: {o.kind}", f)
                        continue
                    nodeadlock(c, o, key, what, f)
                    ev = [e for e in o.events if e.kind == "call" and e.name in ("update_tuple", "update_tuple_meta")]
                    now = w.links(o).get(w.rid)
                    if own == 0:
                        c.require(not ev, key, f"{what}: changes a row version of another transaction", f, what="versions of others left alone")
                        c.require(now == ((I(h[0][0]), o_idx(row)) if len(h) > 1 else None), key + ":link", f"{what}: changes the row's undo link", f, what="versions of others left alone")
                    elif base:
                        c.require(len(ev) == 1 and ev[0].name == "update_tuple", key, f"{what}: {len(ev)} writes to the row", f, what="rows restored")
                        if len(ev) == 1 and ev[0].name == "update_tuple":
                            m = meta_of(o, ev[0].args[0])
                            c.require(m[:3] == base, key + ":meta", f"{what}: leaves metadata {m}, the version before it was {base}", f, what="rows restored")
                            c.require(same_tuple(o, ev[0].args[1], row.tuples[own]), key + ":tuple", f"{what}: restores the wrong tuple {show(ev[0].args[1])[:60]}", f, what="rows restored")
                            more = own + 1 < len(h)
                            c.require((m[3] is not None) == more, key + ":idx", f"{what}: the restored version's undo index is {m[3]}", f)
                            if not full:
                                c.require((now is not None) == more and (not more or now == (I(base[0]), I(m[3]))), key + ":link", f"{what}: leaves the undo link {lk(now)}", f, what="undo links restored")
                                if more:
                                    lg = elems(w.get(o, base[0], "undo_logs"))[m[3]]
                                    c.require(same_tuple(o, w.at(o, lg, "tuple"), row.tuples[own + 1]), key + ":chain", f"{what}: the restored version's chain is wrong", f, what="undo links restored")
                    else:
                        c.require(len(ev) == 1, key, f"{what}: {len(ev)} writes to an inserted row", f, what="inserts undone")
                        if len(ev) == 1:
                            m = meta_of(o, ev[0].args[0])
                            c.require(m[2], key + ":gone", f"{what}: the inserted row stays live with metadata {m}", f, what="inserts undone")
                            c.require(now is None, key + ":link", f"{what}: leaves the undo link {lk(now)}", f, what="inserts undone")
                    if via == "abort":
                        c.require(w.tstate(o, 5) == "Aborted", key + ":state", f"{what}: leaves it {w.tstate(o, 5)}", f)
    # the whole write set, and only once the rows are back is the transaction over
    for n in (0, 1, 2, 3):
        rids = [c.obj("common::rid::RID", f"r{i}", page_id=I(9 + i // 2), slot_num=I(i)) for i in range(n)]
        w, row = scene(c, ROWS[0], writes=rids)
        for bad in (False, True):
          def icept(it, st, p, r, u, args, line, w=w, bad=bad):
            if last(r) == "rollback_row":
                class O:
                    interp, state = it, st
                it.event(st, "call", "rollback_row", (args[3], unit(TX + "TransactionState", w.tstate(O, 5))), None, line)
                return [(st, err(sym("e")) if bad else ok(UNIT))]
            return None
          for o in c.explore(fa, [w.mgr, w.txns[5]], w.mem, seq=True, intercept=icept):
            ev = [e for e in o.events if e.kind == "call" and e.name == "rollback_row"]
            c.require(sorted(map(show, (e.args[0] for e in ev))) == sorted(map(show, rids)), f"set:{n}", f"abort with {n} rows in the write set rolls back {len(ev)}", fa, what="rows rolled back by abort")
            c.require(all(e.args[1].a[1] != "Aborted" for e in ev), f"set:{n}:order", "abort marks the transaction aborted before its rows are back", fa)
            c.require(w.tstate(o, 5) == "Aborted", f"set:{n}:state", f"abort leaves the transaction {w.tstate(o, 5)}", fa)
            nodeadlock(c, o, f"set:{n}", "abort", fa)
    for k, n in (("rows restored", 20), ("inserts undone", 8), ("versions of others left alone", 20), ("rows rolled back by abort", 6)):
        c.floor(k, n)


def w_rid(c):
    return c.obj("common::rid::RID", "rid", page_id=I(9), slot_num=I(3))


# ---------------------------------------------------------------- lifecycle
WM = "concurrency::watermark::Watermark::"


def lifecycle(c):
    """C05: begin, commit, abort, shutdown"""
    fb, fc, fa, fs = (c.P.get(TM + "TransactionManager::" + n) for n in ("begin", "commit", "abort", "shutdown"))
    # begin
    for shutdown in (0, 1):
        for active in ((), (10,), (10, 20)):
            w = World(c)
            w.txn(1, read_ts=10)
            w.tm(active=active, shutdown=shutdown, next_ts=50)
            for o in c.explore(fb, [w.mgr, unit(TX + "IsolationLevel", "Snapshot")], w.mem, seq=True):
                key = f"begin:{shutdown}:{active}"
                okv = o.kind == "return" and o.value.k == "adt" and o.value.a[1] == "Ok"
                c.require(okv == (not shutdown), key, f"begin {'after' if shutdown else 'before'} shutdown: {show(o.value)[:80]}", fb, what="begins")
                nodeadlock(c, o, key, "begin", fb)
                act, wm, nxt = w.wmark(o)
                if okv:
                    t = o.value.a[2][0][1]
                    g = lambda f: w.at(o, t, f, "data")
                    rts = g("read_ts")
                    c.require(w.at(o, t, "txn_id") == I(90) and w.at(o, w.at(o, w.mgr, "next_txn_id"), "v") == I(91), key + ":id", "begin does not hand out the next transaction id", fb, what="begins")
                    c.require(g("state").a[1] == "Running", key + ":state", f"begin returns a {g('state').a[1]} transaction", fb)
                    c.require(rts == I(50) and nxt == I(51), key + ":ts", f"begin gives read timestamp {show(rts)}, next {show(nxt)}; the next timestamp was 50", fb, what="begins")
                    c.require(act == set(active) | {50}, key + ":act", f"begin registers {act}", fb, what="begins")
                    c.require(90 in w.known(o), key + ":map", "begin does not record the transaction", fb)
                else:
                    c.require(act == set(active) and len(w.known(o)) == 1, key + ":none", "a refused begin registers a transaction", fb)
    # commit and abort in every state
    for state in STATES:
        for f in (fc, fa):
            name = last(f["p"])
            for h in ([(5, None, False), (1, 10, False)], [(5, None, True), (1, 10, False)], [(5, None, False)], [(6, None, False), (1, 10, False)], [(1, 10, False)]):
                for others in ((), (20,), (40,)):
                    w = World(c)
                    row = Row(w, h)
                    for t in (1, 5, 6):
                        w.txn(t, "Snapshot", state if t == 5 else "Running" if t == 6 else "Committed", 30 if t == 5 else 20, 45 if t == 5 and state == "Committed" else 10 if t == 1 else 0,
                              row.logs.get(t, ()), [w.rid] if t == 5 else ())
                    tb = w.table()
                    live = state not in ("Committed", "Aborted")
                    active = others + ((30,) if live else ())
                    w.tm(active=active, links=row.links, table=tb, next_ts=50)
                    key = f"{name}:{state}:{h}:{others}"
                    what = f"{name} of a {state} transaction (row {show_row(h)})"
                    base = page(row)

                    def icept(it, st, p, r, u, args, line, w=w, base=base):
                        if r.startswith(TP + "update_tuple"):
                            class O:
                                interp, state = it, st
                            held = [e.args[0] for e in st.events if e.name == "acquire:write"]
                            rel = [e for e in st.events if e.kind == "drop" and "RwLockWriteGuard" in e.name and "Watermark" in e.name]
                            it.event(st, "call", "stamping", (I(int(any(".running_txns" in show(a) for a in held) and not rel)), unit(TX + "TransactionState", w.tstate(O, 5))), None, line)
                        return base(it, st, p, r, u, args, line)
                    for o in c.explore(f, [w.mgr, w.txns[5], sym("bpm")] if f is fc else [w.mgr, w.txns[5]], w.mem, seq=True, intercept=icept):
                        if o.kind != "return":
                            c.require(False, key, f"{what}: {o.kind}", f)
                            continue
                        nodeadlock(c, o, key, what, f)
                        after = w.tstate(o, 5)
                        ev = [e for e in o.events if e.kind == "call" and e.name in ("update_tuple", "update_tuple_meta")]
                        act, wm, nxt = w.wmark(o)
                        cts = w.get(o, 5, "commit_ts")
                        if not live:
                            c.require(after == state, key, f"{what} makes it {after}", f, what="ended transactions that stay ended")
                            c.require(not ev and act == set(active) and nxt == I(50), key + ":noop", f"{what} changes rows or timestamps again", f, what="ended transactions that stay ended")
                            c.require(f is fa or o.value == I(int(state == "Committed")), key + ":answer", f"{what} answers {show(o.value)}", f)
                            c.require(cts == I(45 if state == "Committed" else 0), key + ":ts", f"{what} changes its commit timestamp to {show(cts)}", f)
                            continue
                        c.require(after == ("Committed" if f is fc else "Aborted"), key, f"{what} leaves it {after}", f, what="transactions ended")
                        c.require(act == set(others), key + ":act", f"{what} leaves the read timestamps {sorted(act)} registered; {sorted(others)} are live", f, what="transactions ended")
                        want = min(others) if others else nxt.a[0] if nxt.k == "i" else None
                        c.require(wm == I(want) if want else False, key + ":wm", f"{what}: the watermark is {show(wm)}, the oldest live snapshot is {want}", f, what="watermarks after an end")
                        if f is fc:
                            c.require(o.value == I(1), key + ":answer", f"{what} answers {show(o.value)}", f)
                            c.require(cts.k == "i" and 50 <= cts.a[0] < nxt.a[0], key + ":ts", f"{what}: commit timestamp {show(cts)}, next timestamp {show(nxt)}; 50 and later were free", f,
                                      what="commit timestamps")
                            mine = h[0][0] == 5
                            good = [e for e in ev if e.name == "update_tuple_meta" and meta_of(o, e.args[0])[:3] == (5, cts.a[0], h[0][2])]
                            c.require(len(ev) == len(good) == int(mine), key + ":stamp", f"{what}: {'its version is not stamped with the commit timestamp' if mine else 'stamps a version of another transaction'}", f,
                                      what="row versions stamped")
                            if mine:
                                m = [meta_of(o, e.args[0])[3] for e in good]
                                c.require(m == [meta_of(o, row.meta)[3]], key + ":idx", f"{what}: stamping loses the version chain", f)
                                s = [e for e in o.events if e.name == "stamping"]
                                c.require(all(e.args[0] == I(1) for e in s), key + ":atomic", f"{what}: a transaction can begin between taking the commit timestamp and stamping the rows, "
                                          "and its snapshot misses the commit", f, what="rows stamped before another snapshot can begin")
    # shutdown ends every live transaction
    for states in itertools.product(STATES, repeat=2):
        w, row = None, None
        w = World(c)
        for i, s in enumerate(states):
            w.txn(i + 1, "Snapshot", s, 30 + i)
        w.tm(active=tuple(30 + i for i, s in enumerate(states) if s not in ("Committed", "Aborted")), next_ts=50)
        for o in c.explore(fs, [w.mgr], w.mem, seq=True):
            key = f"shutdown:{states}"
            bad = [s for i, s in enumerate(states) if w.tstate(o, i + 1) != (s if s == "Committed" else "Aborted")]
            c.require(not bad, key, f"shutdown leaves a {bad} transaction unfinished (or changes an ended one)", fs, what="transactions ended by shutdown")
            c.require(w.at(o, w.state, "is_shutdown", "v") == I(1), key + ":flag", "shutdown does not stop new transactions", fs)
            nodeadlock(c, o, key, "shutdown", fs)
    # the order inside the objects themselves
    fset = c.P.get(TX + "Transaction::set_state")
    for a in STATES:
        for b in STATES:
            w = World(c)
            t = w.txn(5, state=a)
            w.tm()
            for o in c.explore(fset, [t, unit(TX + "TransactionState", b)], w.mem, seq=True):
                c.require(w.tstate(o, 5) == (a if a in ("Committed", "Aborted") else b), f"set:{a}:{b}", f"a {a} transaction set to {b} becomes {w.tstate(o, 5)}", fset, what="state changes")
    for k, n in (("ended transactions that stay ended", 100), ("row versions stamped", 50), ("rows stamped before another snapshot can begin", 30), ("state changes", 36), ("transactions ended by shutdown", 36)):
        c.floor(k, n)


def watermark(c):
    """C06: timestamps are unique and increasing; nothing a snapshot can still need is discarded"""
    mk_w = lambda w, active, nxt: w.heap(c.obj(WM[:-2], "w", active_txns=M(*((I(t), UNIT) for t in active)), watermark=I(min(active) if active else nxt), next_ts=atomic(I(nxt))))

    def look(o, p):
        v = o.interp.deref(o.state, p)
        g = lambda n: o.interp.proj(v, (".", n))
        return {k.a[0] for k, _ in pairs(g("active_txns"))}, g("watermark"), o.interp.proj(g("next_ts"), (".", "v")).a[0]
    acts = [(), (5,), (5, 9), (9, 5), (5, 7, 9)]
    for f, tss in (("get_next_ts", (None,)), ("get_next_ts_and_register", (None,)), ("add_txn", (3, 5, 7, 12)), ("remove_txn", (5, 7, 9, 12)), ("unregister_txn", (5, 7, 9, 12)),
                   ("update_commit_ts", (5, 19, 20, 21, 30)), ("update_commit_ts_and_get_watermark", (5, 20, 30)), ("get_watermark", (None,)), ("clone_watermark", (None,))):
        fn = c.P.get(WM + f)
        for act in acts:
            for ts in tss:
                w = World(c)
                p = mk_w(w, act, 20)
                key = f"{f}:{act}:{ts}"
                what = f"Watermark::{f}({'' if ts is None else ts}) with active {act}, next timestamp 20"
                for o in c.explore(fn, [p] + ([I(ts)] if ts is not None else []), w.mem, seq=True):
                    if o.kind != "return":
                        c.require(False, key, f"{what}: {o.kind}", fn)
                        continue
                    a2, wm, nxt = look(o, p)
                    if f == "clone_watermark":
                        g = lambda n: o.interp.proj(o.value, (".", n))
                        c.require({k.a[0] for k, _ in pairs(g("active_txns"))} == set(act) and g("watermark") == wm and o.interp.proj(g("next_ts"), (".", "v")) == I(20), key,
                                  f"{what}: the copy differs", fn)
                    want = set(act)
                    if f == "get_next_ts_and_register":
                        want |= {20}
                    if f == "add_txn":
                        want |= {ts}
                    if f in ("remove_txn", "unregister_txn"):
                        want -= {ts}
                    wn = 21 if f.startswith("get_next_ts") else max(20, ts + 1) if f.startswith("update_commit_ts") else 20
                    c.require(a2 == want, key + ":act", f"{what}: active becomes {sorted(a2)}", fn, what="watermark operations")
                    c.require(nxt == wn, key + ":next", f"{what}: the next timestamp becomes {nxt}, not {wn}", fn, what="watermark operations")
                    if f.startswith("get_next_ts"):
                        c.require(o.value == I(20), key + ":ts", f"{what}: returns {show(o.value)}", fn, what="timestamps handed out")
                    if f not in ("get_next_ts", "get_watermark", "clone_watermark"):
                        ww = min(want) if want else wn
                        c.require(wm == I(ww), key + ":wm", f"{what}: the watermark becomes {show(wm)}; the oldest live snapshot is {ww}", fn, what="watermarks")
                    if f in ("unregister_txn", "get_watermark", "update_commit_ts_and_get_watermark"):
                        c.require(o.value == wm, key + ":ret", f"{what}: returns {show(o.value)}, the watermark is {show(wm)}", fn)
    # what may be discarded
    fp, fg = c.P.get(TM + "TransactionManager::prune_completed_transactions"), c.P.get(TM + "TransactionManager::garbage_collection")
    for f in (fp, fg):
        for state in STATES:
            for cts in (5, 19, 20, 21, 30) if state == "Committed" else (0,):
                for rts in (10, 19, 20, 25):
                    if state == "Committed" and rts >= cts:
                        continue
                    live = state not in ("Committed", "Aborted")
                    w = World(c)
                    row = Row(w, [(5, cts if state == "Committed" else None, False), (1, 3, False)])
                    w.txn(5, "Snapshot", state, rts, cts, row.logs[5])
                    active = (20,) + ((rts,) if live else ())
                    w.tm(active=active, links=row.links, next_ts=50)
                    wm = min(active)
                    key = f"{last(f['p'])}:{state}:{cts}:{rts}"
                    what = f"{last(f['p'])} with a {state} transaction" + (f" committed at {cts}" if cts else f" (read timestamp {rts})") + f", oldest live snapshot {wm}"
                    for o in c.explore(f, [w.mgr], w.mem, seq=True):
                        if o.kind != "return":
                            c.require(False, key, f"{what}: {o.kind}", f)
                            continue
                        nodeadlock(c, o, key, what, f)
                        # a snapshot at wm reads the version before T5's when T5 is live or committed after wm
                        need = live or state == "Committed" and cts > wm
                        kept = 5 in w.known(o)
                        link = w.links(o).get(w.rid)
                        if need:
                            c.require(kept, key + ":txn", f"{what}: its undo log is discarded, yet the snapshot needs the version it replaced", f, what="undo logs kept while needed")
                            c.require(link == (I(5), I(0)), key + ":link", f"{what}: the row's undo link is discarded, yet the snapshot needs the version it replaced", f, what="undo links kept while needed")
                        elif f is fg and (cts < wm if state == "Committed" else rts < wm):
                            c.require(not kept, key + ":gone", f"{what}: it is never discarded", f, what="garbage discarded")
    for k, n in (("watermark operations", 150), ("watermarks", 80), ("undo links kept while needed", 25), ("garbage discarded", 3)):
        c.floor(k, n)


def endings(c):
    """C04: however a transaction ends, its locks are released and its end is logged once"""
    fbegin, fcommit, fabort = (c.P.get(FAC + "::" + n) for n in ("begin_transaction", "commit_transaction", "abort_transaction"))
    for state in STATES:
        for f in (fcommit, fabort):
            for wal in (True, False):
                for tmres in ((True, False) if f is fcommit else (True,)):
                    for flush in (("ok", "err") if f is fcommit else ("ok",)):
                        for release, wrote in (("ok", True), ("err", True), ("ok", False)):
                            w = World(c)
                            w.txn(5, "Snapshot", state, 30, 0, (), [w.rid] if wrote else [])
                            w.tm(active=(30,))
                            fac = w.heap(c.obj(FAC, "fac", transaction_manager=w.mgr, wal_manager=some(sym("wal")) if wal else NONE, lock_manager=sym("lockmgr"), buffer_pool_manager=sym("bpm")))
                            cx = w.ctx(5)
                            ended = state in ("Committed", "Aborted")
                            name = last(f["p"])

                            def icept(it, st, p, r, u, args, line, w=w, tmres=tmres, flush=flush, release=release):
                                n = last(r)
                                if n in ("write_commit_record", "write_abort_record", "write_begin_record"):
                                    class O:
                                        interp, state = it, st
                                    it.event(st, "call", n, (through(it, st, args[1]), unit(TX + "TransactionState", w.tstate(O, 5))), None, line)
                                    return [(st, I(77))]
                                if r == TM + "TransactionManager::commit":
                                    it.event(st, "call", "tm.commit", (args[1],), None, line)
                                    return [(st, mk("ready", I(int(tmres))))]
                                if r == TM + "TransactionManager::abort":
                                    it.event(st, "call", "tm.abort", (args[1],), None, line)
                                    return [(st, UNIT)]
                                if n in ("is_persistent", "get_persistent_lsn"):
                                    return [(st, I(1 if n == "is_persistent" else 77))]
                                if n == "force_release_txn":
                                    it.event(st, "call", n, (args[1],), None, line)
                                    return [(st, ok(TRUE) if release == "ok" else err(sym("e")))]
                                if n.startswith("flush_page"):
                                    it.event(st, "call", "flush", (args[1],), None, line)
                                    return [(st, mk("ready", ok(UNIT) if flush == "ok" else err(sym("io"))))]
                                return None
                            key = f"{name}:{state}:{wal}:{tmres}:{flush}:{release}" + ("" if wrote else ":readonly")
                            what = f"{name} of a {state} transaction" + ("" if wrote else " that wrote nothing") + ("" if tmres else ", commit refused") + ("" if flush == "ok" else ", page flush fails") + ("" if wal else ", no log")
                            for o in c.explore(f, [fac, cx], w.mem, seq=True, intercept=icept):
                                if o.kind != "return":
                                    c.require(False, key, f"{what}: {o.kind}", f)
                                    continue
                                nodeadlock(c, o, key, what, f)
                                ev = [e for e in o.events if e.kind == "call"]
                                pos = {}
                                for i, e in enumerate(ev):
                                    pos.setdefault(e.name, []).append(i)
                                rel = [e for e in ev if e.name == "force_release_txn"]
                                c.require(bool(rel) and all(e.args[0] == I(5) for e in rel), key + ":locks", f"{what}: returns without releasing its locks", f, what="ends that release every lock")
                                end = pos.get("tm.commit", []) + pos.get("tm.abort", [])
                                rec = "write_commit_record" if f is fcommit else "write_abort_record"
                                other = "write_abort_record" if f is fcommit else "write_commit_record"
                                c.require(not pos.get(other), key + ":other", f"{what}: logs the wrong record", f)
                                if ended:
                                    c.require(not pos.get(rec), key + ":rec", f"{what}: an ended transaction's end is logged again", f, what="ended transactions logged no more")
                                    c.require(not pos.get("tm.commit"), key + ":again", f"{what}: commits again", f)
                                    if f is fcommit:
                                        c.require(o.value == I(int(state == "Committed")), key + ":answer", f"{what}: answers {show(o.value)}", f)
                                    continue
                                c.require(bool(end), key + ":end", f"{what}: does not end it in the transaction manager", f, what="ends")
                                c.require(not end or min(pos.get("force_release_txn", [10 ** 6])) > max(end), key + ":order", f"{what}: releases locks before the transaction has ended", f,
                                          what="locks kept until the end")
                                if wal:
                                    c.require(len(pos.get(rec, [])) == 1, key + ":rec", f"{what}: {len(pos.get(rec, []))} end records are logged", f, what="ends logged")
                                    c.require(not pos.get(rec) or not end or pos[rec][0] < min(end), key + ":recorder", f"{what}: the end is visible before its log record is durable", f, what="ends logged first")
                                    if pos.get(rec):
                                        c.require(ev[pos[rec][0]].args[0] == w.txns[5], key + ":rectxn", f"{what}: the record names another transaction {show(ev[pos[rec][0]].args[0])}", f)
                                        c.require(w.get(o, 5, "prev_lsn") == I(77), key + ":lsn", f"{what}: the transaction does not remember the record's LSN", f)
                                if f is fcommit:
                                    if not tmres:
                                        c.require(o.value == I(0), key + ":answer", f"{what}: answers {show(o.value)}", f, what="refused commits reported")
                                    elif flush == "ok":
                                        c.require(o.value == I(1), key + ":answer", f"{what}: answers {show(o.value)}", f, what="commits reported")
    # begin: logged before the transaction can do anything
    for wal in (True, False):
        w = World(c)
        w.txn(5)
        w.tm()
        fac = w.heap(c.obj(FAC, "fac", transaction_manager=w.mgr, wal_manager=some(sym("wal")) if wal else NONE, lock_manager=sym("lockmgr"), buffer_pool_manager=sym("bpm")))

        def icept(it, st, p, r, u, args, line):
            if last(r) == "write_begin_record":
                it.event(st, "call", last(r), (through(it, st, args[1]),), None, line)
                return [(st, I(77))]
        for o in c.explore(fbegin, [fac, unit(TX + "IsolationLevel", "Snapshot")], w.mem, seq=True, intercept=icept):
            ev = [e for e in o.events if e.name == "write_begin_record"]
            c.require(len(ev) == int(wal), f"begin:{wal}", f"begin_transaction logs {len(ev)} begin records", fbegin, what="begins logged")
            t = w.at(o, o.value, "transaction")
            c.require(not wal or (ev and ev[0].args[0] == t and w.at(o, t, "prev_lsn", "data") == I(77)), f"begin:{wal}:lsn", "the transaction does not remember its begin record", fbegin)
            c.require(w.at(o, o.value, "lock_manager") == sym("lockmgr") and w.at(o, o.value, "transaction_manager") == w.mgr, f"begin:{wal}:mgr", "the context carries another manager", fbegin)
    for k, n in (("ends that release every lock", 60), ("ends logged", 15), ("ends logged first", 15), ("ended transactions logged no more", 15), ("refused commits reported", 10)):
        c.floor(k, n)
