"""The log: acknowledgement, encoding, recovery."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, cell, last, Session
from prog import AnchorError
from rules.txn import World, lockcell, atomic, FAC, TM, TX

LOGM = "recovery::log_manager::LogManager"
REC = "recovery::log_record::LogRecord"
RTY = "recovery::log_record::LogRecordType"
WAL = "recovery::wal_manager::WALManager"
MAX = (1 << 64) - 1
TSE = "tokio::sync::mpsc::error::TrySendError"


def record(c, ty="Update", lsn=MAX, txn=5, prev=MAX, name="r", **f):
    return c.obj(REC, name, lsn=atomic(I(lsn)), txn_id=I(txn), prev_lsn=I(prev), log_record_type=unit(RTY, ty), **f)


def log_state(c, s, persistent=MAX, nxt=0, stop=0):
    st = s.alloc(c.obj(LOGM + "State", "state", next_lsn=atomic(I(nxt)), persistent_lsn=atomic(I(persistent)), stop_flag=atomic(I(stop)), disk_manager=sym("disk"),
                       sender=sym("sender"), flush_thread=lockcell(NONE)))
    m = s.alloc(c.obj(LOGM, "lm", state=st, runtime_handle=sym("rt"), receiver=lockcell(some(sym("receiver")))))
    return st, m


def field(it, st, p, n):
    return it.proj(it.proj(it.deref(st, p), (".", n)), (".", "v")).a[0]


def deep(it, st, v):
    while v.k == "ref":
        v = it.deref(st, v)
    return v


def put(it, st, p, n, v):
    root, path = p.a
    o = it.deref(st, p)
    st.mem[root] = adt(o.a[0], o.a[1], tuple((k, atomic(I(v)) if k == n else x) for k, x in o.a[2]))


class Flusher:
    """the flush task fed by a scripted channel and a scripted disk"""

    def __init__(self, c, script, fail):
        self.c, self.fail = c, fail
        self.script = list(script)
        self.queue, self.io, self.bad = [], [], None
        self.written, self.durable, self.calls = [], set(), 0
        self.sent = []
        self.s = Session(c, intercept=self.icept)
        self.st, self.lm = log_state(c, self.s)
        self.n = 0
        self.body = None

    def arrive(self, kinds):
        for k in kinds:
            r = self.s_alloc(record(self.c, "Commit" if k == "c" else "Update", lsn=self.n))
            self.sent.append(self.n)
            self.n += 1
            self.queue.append(r)

    def s_alloc(self, v):
        root = ("H", f"rec{self.n}")
        self.cur.mem[root] = v
        return ref(root)

    def look(self, it, st):
        p = field(it, st, self.st, "persistent_lsn")
        if p != MAX and any(x <= p and x not in self.durable for x in self.sent):
            lost = [x for x in self.sent if x <= p and x not in self.durable]
            self.bad = self.bad or f"record {lost[0]} counts as persistent (persistent LSN {p}) though it is not on the disk"

    def icept(self, it, st, p, r, u, args, line):
        self.cur = st
        n = last(p)
        if p.startswith("tokio::runtime::handle::Handle::spawn"):
            self.body = args[1]
            return [(st, sym("task"))]
        if p == "tokio::sync::mpsc::bounded::Receiver::<T>::recv":
            return [(st, sym("recv"))]
        if p == "tokio::time::timeout::timeout":
            self.look(it, st)
            if not self.queue:
                x = self.script.pop(0) if self.script else ("closed",)
                if x[0] == "batch":
                    self.arrive(x[1])
                elif x[0] == "stop":
                    put(it, st, self.st, "stop_flag", 1)
                    self.arrive(x[1])
                    return [(st, mk("ready", err(sym("elapsed"))))]
                elif x[0] == "closed":
                    return [(st, mk("ready", ok(NONE)))]
                else:
                    return [(st, mk("ready", err(sym("elapsed"))))]
            return [(st, mk("ready", ok(some(self.queue.pop(0)))))]
        if n == "try_recv":
            self.look(it, st)
            return [(st, ok(self.queue.pop(0)) if self.queue else err(sym("empty")))]
        if n in ("write_log", "sync_log_direct"):
            self.look(it, st)
            good = self.calls != self.fail
            self.calls += 1
            if n == "write_log":
                v = args[1]
                while v.k == "ref":
                    v = it.deref(st, v)
                lsn = it.proj(it.proj(v, (".", "lsn")), (".", "v")).a[0]
                self.io.append(("write", lsn))
                if good:
                    self.written.append(lsn)
                return [(st, mk("ready", ok(I(100)) if good else err(sym("io"))))]
            self.io.append(("sync",))
            if good:
                self.durable |= set(self.written)
            return [(st, mk("ready", ok(UNIT) if good else err(sym("io"))))]
        return None

    def run(self, f):
        k, v = self.s.call(f, self.lm)
        if self.body is None:
            raise AnchorError("run_flush_thread spawns no task")
        b = self.body
        while b.k == "ref":
            b = self.s.load(b)
        body = self.c.P.fn[b.a[1]]
        o = None
        k, v = self.s.call(body, b, mk("cx"))
        self.look(self.s.o.interp, self.s.o.state)
        return k

    def get(self, n):
        return field(self.s.o.interp, self.s.o.state, self.st, n)


def acks(c):
    """D01: a commit is acknowledged once its record and everything logged before it is on the disk"""
    frun = c.P.get(LOGM + "::run_flush_thread")
    fapp = c.P.get(LOGM + "::append_log_record")
    scripts = {
        "one commit": [("batch", "c"), ("stop", "")],
        "updates and a commit": [("batch", "uuc"), ("stop", "")],
        "two commits at once": [("batch", "ucuc"), ("stop", "")],
        "idle between records": [("idle",), ("batch", "u"), ("idle",), ("batch", "c"), ("stop", "")],
        "records behind a commit": [("batch", "cuu"), ("batch", "c"), ("stop", "")],
        "records left at the stop": [("batch", "u"), ("stop", "uc")],
        "channel closed": [("batch", "uc"), ("batch", "u"), ("closed",)],
        "nothing": [("stop", "")],
        "a commit at the stop": [("stop", "c")],
        "commit by commit": [("batch", "c"), ("batch", "c"), ("batch", "c"), ("stop", "")],
    }
    for name, script in scripts.items():
        fail = -1
        while True:
            F = Flusher(c, script, fail)
            k = F.run(frun)
            key = f"flush:{name}:{fail}"
            what = f"flushing ({name}" + (f", disk operation {fail} fails)" if fail >= 0 else ")")
            c.require(k == "return", key + ":end", f"{what}: the flush task ends with {k}", frun)
            c.require(F.bad is None, key, f"{what}: {F.bad}", frun, what="flush histories")
            c.require(F.written == sorted(F.written) and len(set(F.written)) == len(F.written), key + ":order", f"{what}: records reach the log out of order or twice: {F.io}", frun, what="log order")
            total = F.calls
            if fail < 0:
                c.require(F.durable == set(F.sent), key + ":lost", f"{what}: records {sorted(set(F.sent) - F.durable)} never reach the disk", frun, what="records flushed")
                p = F.get("persistent_lsn")
                c.require(p == (F.sent[-1] if F.sent else MAX), key + ":lsn", f"{what}: the persistent LSN ends at {p}", frun, what="persistent LSN advanced")
            else:
                c.require(F.get("stop_flag") == 1, key + ":stop", f"{what}: waiting commits are never told that the log failed", frun, what="failures signalled")
                c.require(F.durable >= {x for x in F.sent if F.get("persistent_lsn") != MAX and x <= F.get("persistent_lsn")}, key + ":end-lsn", f"{what}: lost records count as persistent", frun)
            if fail < 0:
                n = total
            fail += 1
            if fail >= n:
                break
    # appending: the record carries its LSN when it is queued, and a commit waits
    for ty in ("Update", "Begin", "Commit", "Abort"):
        for sends in (("ok",), ("full", "ok"), ("full", "full", "ok"), ("closed",)):
            for waits in ((), (("p", 40),), (("p", 41), ("p", 42)), (("p", 41), ("p", 41), ("p", 50)), (("stop", 1),), (("p", 41), ("stop", 1))):
                if ty != "Commit" and len(waits) > 0:
                    continue
                for start in (MAX, 41, 45):
                    if start == 45 and waits:
                        continue
                    ss, ws, seen = list(sends), list(waits), []
                    s = Session(c)
                    stp, lm = log_state(c, s, persistent=start, nxt=42)
                    rec = s.alloc(record(c, ty))

                    def icept(it, st, p, r, u, args, line):
                        if last(p) == "try_send":
                            x = ss.pop(0) if ss else "ok"
                            v = args[1]
                            while v.k == "ref":
                                v = it.deref(st, v)
                            seen.append((x, it.proj(it.proj(v, (".", "lsn")), (".", "v")), args[1]))
                            return [(st, ok(UNIT) if x == "ok" else err(adt(TSE, "Full" if x == "full" else "Closed", (("0", args[1]),))))]
                        if p.startswith("std::thread") and last(p) == "sleep":
                            if not ss or len(seen) == len(sends):
                                if ws:
                                    k, v = ws.pop(0)
                                    put(it, st, stp, "persistent_lsn" if k == "p" else "stop_flag", v)
                                else:
                                    put(it, st, stp, "stop_flag", 2)
                            return [(st, UNIT)]
                        return None
                    k, v = s.call(fapp, lm, rec, intercept=icept)
                    it, st = s.o.interp, s.o.state
                    key = f"append:{ty}:{sends}:{waits}:{start}"
                    what = f"appending a {ty} record (queue {'/'.join(sends)})"
                    c.require(k == "return" and v == I(42), key, f"{what}: answers {show(v)} for LSN 42", fapp, what="appends")
                    c.require(field(it, st, stp, "next_lsn") == 43, key + ":next", f"{what}: the next LSN is {field(it, st, stp, 'next_lsn')}", fapp)
                    c.require(all(x[1] == I(42) for x in seen), key + ":stamp", f"{what}: the record is queued before it has its LSN", fapp, what="records stamped before queueing")
                    want = [x for x in sends]
                    c.require([x[0] for x in seen] == want and all(x[2] == rec for x in seen), key + ":once", f"{what}: it is queued {sum(1 for x in seen if x[0] == 'ok')} times", fapp, what="records queued once")
                    if ty == "Commit":
                        p, stop = field(it, st, stp, "persistent_lsn"), field(it, st, stp, "stop_flag")
                        c.require((p != MAX and p >= 42) or stop, key + ":wait", f"{what}: it answers before the record is persistent (persistent LSN {p})", fapp, what="commits that wait")
                        reached = [i for i, (kk, x) in enumerate(waits) if kk == "stop" or x >= 42]
                        c.require(not (stop == 2 and (reached or start == 45)), key + ":hang", f"{what}: it goes on waiting after the record is persistent", fapp)
    commits(c)
    c.floor("flush histories", 30)
    c.floor("failures signalled", 20)
    c.floor("commits that wait", 20)
    c.floor("commits answered by the disk", 10)


def commits(c):
    """the transaction's own records, and the answer of commit"""
    fcommit = c.P.get(FAC + "::commit_transaction")
    for p in (MAX, 0, 76, 77, 78):
        w = World(c)
        w.txn(5, "Snapshot", "Running", 30, 0, (), [w.rid])
        w.tm(active=(30,))
        wal = w.heap(c.obj(WAL, "wal", log_manager=w.heap(lockcell(sym("logm")))))
        fac = w.heap(c.obj(FAC, "fac", transaction_manager=w.mgr, wal_manager=some(wal), lock_manager=sym("lockmgr"), buffer_pool_manager=sym("bpm")))
        cx = w.ctx(5)

        def icept(it, st, q, r, u, args, line):
            n = last(r or q)
            if n == "append_log_record":
                v = deep(it, st, args[1])
                it.event(st, "call", "append", (it.proj(v, (".", "log_record_type")), it.proj(v, (".", "txn_id")), it.proj(v, (".", "prev_lsn"))), None, line)
                return [(st, I(77))]
            if n == "get_persistent_lsn":
                return [(st, I(p))]
            if r == TM + "TransactionManager::commit":
                it.event(st, "call", "tm.commit", (), None, line)
                return [(st, mk("ready", TRUE))]
            if r == TM + "TransactionManager::abort":
                it.event(st, "call", "tm.abort", (), None, line)
                return [(st, UNIT)]
            if n == "force_release_txn":
                return [(st, ok(TRUE))]
            if n.startswith("flush_page"):
                return [(st, mk("ready", ok(UNIT)))]
            if q.startswith("postcard::"):
                return [(st, err(sym("codec")))]
            return None
        durable = p != MAX and p >= 77
        key, what = f"commit:{p}", f"commit whose record gets LSN 77 while the disk has {'nothing' if p == MAX else p}"
        for o in c.explore(fcommit, [fac, cx], w.mem, seq=True, intercept=icept):
            ev = [e for e in o.events if e.kind == "call"]
            names = [e.name for e in ev]
            c.require(o.kind == "return" and o.value == I(int(durable)), key, f"{what}: answers {show(o.value)}", fcommit, what="commits answered by the disk")
            c.require(("tm.commit" in names) == durable, key + ":tm", f"{what}: the transaction {'becomes' if not durable else 'does not become'} visible", fcommit, what="commits answered by the disk")
            c.require(durable or "tm.abort" in names, key + ":undo", f"{what}: its changes stay", fcommit)
            ap = [e for e in ev if e.name == "append"]
            c.require(bool(ap) and ap[0].args == (unit(RTY, "Commit"), I(5), I(0)), key + ":rec", f"{what}: the first record is {[show(a) for a in ap[0].args] if ap else None}", fcommit)
    for n, ty in (("write_begin_record", "Begin"), ("write_commit_record", "Commit"), ("write_abort_record", "Abort"), ("write_update_record", "Update")):
        f = c.P.get(WAL + "::" + n)
        w = World(c)
        t = w.txn(5, "Snapshot", "Running", 30)
        wal = w.heap(c.obj(WAL, "wal", log_manager=w.heap(lockcell(sym("logm")))))
        a, b = sym("old"), sym("new")

        def icept(it, st, q, r, u, args, line):
            if last(r or q) == "append_log_record":
                it.event(st, "call", "append", (deep(it, st, args[1]),), None, line)
                return [(st, I(77))]
            if q.startswith("postcard::"):
                return [(st, err(sym("codec")))]
            return None
        extra = [w.rid, a, b] if ty == "Update" else []
        for o in c.explore(f, [wal, w.txns[5]] + extra, w.mem, seq=True, intercept=icept):
            ev = [e for e in o.events if e.name == "append"]
            g = lambda k: o.interp.proj(ev[0].args[0], (".", k))
            good = len(ev) == 1 and g("log_record_type") == unit(RTY, ty) and g("txn_id") == I(5) and g("prev_lsn") == (I(MAX) if ty == "Begin" else I(0))
            if good and ty == "Update":
                good = g("update_rid") == some(w.rid) and show(g("old_tuple")).find("old") >= 0 and show(g("new_tuple")).find("new") >= 0
            c.require(good and o.value == I(77), f"record:{n}", f"{n} logs {[show(x) for x in ev[0].args] if ev else 'nothing'}"[:300], f, what="commits answered by the disk")


# ---------------------------------------------------------------- the log as bytes
ITER = "recovery::log_iterator::LogIterator"
EK = "std::io::error::ErrorKind"


class Log:
    """a log file: records of chosen lengths, gaps of zeros, a cut at the end"""

    def __init__(self, c, parts, cut=None):
        self.c, self.bytes, self.recs, self.n = c, [], [], 0
        for kind, n in parts:
            if kind == "rec":
                name = f"r{self.n}"
                self.n += 1
                start = len(self.bytes)
                self.bytes += [I(b) for b in n.to_bytes(4, "little")] + [mk("pb", name, i, n - 4) for i in range(n - 4)]
                self.recs.append((name, start, len(self.bytes)))
            elif kind == "zero":
                self.bytes += [I(0)] * n
            elif kind == "page":
                self.bytes += [I(0)] * (-len(self.bytes) % n)
            elif kind == "bytes":
                self.bytes += [I(b) for b in n]
        if cut is not None:
            self.bytes = self.bytes[:len(self.bytes) - cut]
        self.whole = [n for n, a, b in self.recs if b <= len(self.bytes)]

    def obj(self, name):
        return record(self.c, "Update", lsn=int(name[1:]), name=name)

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if n == "read_log_sized":
            off, size = args[1], args[2]
            if off.k != "i" or size.k != "i":
                return None
            off, size = off.a[0], size.a[0]
            if off + size > len(self.bytes):
                return [(st, mk("ready", err(mk("ioerr", "UnexpectedEof"))))]
            return [(st, mk("ready", ok(L(*self.bytes[off:off + size]))))]
        if n == "kind" and "io::error" in p:
            e = deep(it, st, args[0])
            return [(st, mk("kind", e.a[0]))] if e.k == "ioerr" else None
        if n in ("eq", "ne") and len(args) == 2:
            a, b = deep(it, st, args[0]), deep(it, st, args[1])
            if a.k == "kind":
                same = show(b).endswith(a.a[0])
                return [(st, I(int(same == (n == "eq"))))]
        if p.startswith("postcard::") and n == "from_bytes":
            xs = elems(deep(it, st, args[0]))
            if xs and xs[0].k == "pb" and xs[0].a[1] == 0 and len(xs) >= xs[0].a[2] and all(x.k == "pb" and x.a[0] == xs[0].a[0] and x.a[1] == i for i, x in enumerate(xs[:xs[0].a[2]])):
                return [(st, ok(self.obj(xs[0].a[0])))]
            return [(st, err(sym("codec")))]
        return None


def framing(c):
    """D02: the log reads back as the records that were written, up to a torn tail"""
    fnext = c.P.get(ITER + "::next")
    fnew = c.P.get(ITER + "::new")
    cases = {"empty": []}
    for sizes in ((20,), (20, 30, 40), (4096,), (4000, 96), (4000, 97, 20), (255, 256, 257), (300, 65, 5000), (9, 9), (70000,), (20,) * 12):
        cases[f"records {sizes}"] = [("rec", n) for n in sizes]
    cases["zeros at the end"] = [("rec", 20), ("rec", 30), ("zero", 9000)]
    cases["zeros only"] = [("zero", 5000)]
    for name, parts in cases.items():
        total = len(Log(c, parts).bytes)
        cuts = [None]
        if parts and parts[-1][0] == "rec" and parts[-1][1] < 5000:
            n = parts[-1][1]
            cuts += sorted({1, 2, n - 5, n - 4, n - 3, n - 1} & set(range(1, n)))
        for cut in cuts:
            log = Log(c, parts, cut)
            s = Session(c, intercept=log.icept)
            k, v = s.call(fnew, sym("disk"))
            itr = s.alloc(v)
            got, key = [], f"log:{name}:{cut}"
            what = f"a log of {name}" + (f" whose last {cut} bytes are missing" if cut else "")
            end = 0
            while end < 2 and len(got) <= len(log.recs) + 1:
                k, v = s.call(fnext, itr)
                if k != "return" or v.k != "adt":
                    got.append(k)
                    break
                if v.a[1] == "None":
                    end += 1
                    continue
                x = v.a[2][0][1]
                got.append(f"r{s.o.interp.proj(s.o.interp.proj(x, ('.', 'lsn')), ('.', 'v')).a[0]}")
            c.require(got == log.whole, key, f"{what} reads back as {got} instead of {log.whole}", fnext, what="logs read back")
    # one record: length prefix and contents
    ft, fb = c.P.get(REC + "::to_bytes"), c.P.get(REC + "::from_bytes")
    for n in (1, 27, 123, 124, 251, 252, 253, 300, 4092, 65531, 70000):
        log = Log(c, [])
        rec = log.obj("r3")

        def icept(it, st, p, r, u, args, line):
            if p.startswith("postcard::") and last(p) == "to_allocvec":
                v = deep(it, st, args[0])
                return [(st, ok(L(*[mk("pb", "r3", i, n) for i in range(n)])) if v == rec else err(sym("codec")))]
            return log.icept(it, st, p, r, u, args, line)
        s = Session(c, intercept=icept)
        k, v = s.call(ft, s.alloc(rec))
        good = k == "return" and v.k == "adt" and v.a[1] == "Ok"
        bs = list(elems(v.a[2][0][1])) if good else None
        c.require(good and bs == [I(b) for b in (n + 4).to_bytes(4, "little")] + [mk("pb", "r3", i, n) for i in range(n)], f"frame:{n}",
                  f"a record of {n} bytes is framed as {[show(x) for x in bs[:6]] if bs else show(v)}...", ft, what="records framed")
        if bs:
            k, v = s.call(fb, s.alloc(L(*bs)))
            c.require(k == "return" and v == ok(rec), f"unframe:{n}", f"the frame of a record of {n} bytes decodes to {show(v)[:80]}", fb, what="records framed")
    for n in range(4):
        s = Session(c, intercept=Log(c, []).icept)
        k, v = s.call(fb, s.alloc(L(*[I(0)] * n)))
        c.require(k == "return" and v.k == "adt" and v.a[1] == "Err", f"unframe:short:{n}", f"{n} bytes decode to a record", fb)
    makers(c)
    c.floor("logs read back", 60)
    c.floor("records made", 14)


GET = {"get_update_rid": "update_rid", "get_original_tuple": "old_tuple", "get_update_tuple": "new_tuple", "get_insert_rid": "insert_rid", "get_insert_tuple": "insert_tuple",
       "get_delete_rid": "delete_rid", "get_delete_tuple": "delete_tuple", "get_page_id": "page_id", "get_new_page_record": "prev_page_id"}


def makers(c):
    """a record holds what it was made from, and its questions answer it"""
    T, A, B = [mk("arg", 0, x) for x in ("txn", "old", "new")]

    def icept(it, st, p, r, u, args, line):
        if p.startswith("postcard::"):
            return [(st, err(sym("codec")))]
        return None
    rid = c.obj("common::rid::RID", "rid", page_id=mk("arg", 0, "pg"), slot_num=mk("arg", 0, "slot"))
    made = []
    for ty in ("Begin", "Commit", "Abort"):
        made.append(("new_transaction_record", ty, ty, [], {}))
    made.append(("new_insert_delete_record", "Insert", "Insert", [rid, A], dict(insert_rid=rid, insert_tuple=A)))
    for ty in ("MarkDelete", "ApplyDelete", "RollbackDelete"):
        made.append(("new_insert_delete_record", ty, ty, [rid, A], dict(delete_rid=rid, delete_tuple=A)))
    made.append(("new_update_record", "Update", "Update", [rid, A, B], dict(update_rid=rid, old_tuple=A, new_tuple=B)))
    made.append(("new_page_record", "NewPage", "NewPage", [mk("arg", 0, "prevpg"), mk("arg", 0, "newpg")], dict(prev_page_id=mk("arg", 0, "prevpg"), page_id=mk("arg", 0, "newpg"))))
    for fn, ty, want, extra, fields in made:
        f = c.P.get(REC + "::" + fn)
        s = Session(c, intercept=icept)
        args = [s.alloc(x) if x in (A, B) else x for x in extra]
        k, v = s.call(f, mk("arg", 0, "txn"), mk("arg", 0, "prev"), unit(RTY, ty), *args)
        if not c.require(k == "return", f"make:{fn}:{ty}", f"{fn}({ty}): {k}", f):
            continue
        p = s.alloc(v)
        g = lambda n: s.o.interp.proj(v, (".", n))
        c.require(g("txn_id") == mk("arg", 0, "txn") and g("prev_lsn") == mk("arg", 0, "prev") and g("log_record_type") == unit(RTY, want), f"make:{fn}:{ty}:head",
                  f"{fn}({ty}) makes a record of transaction {show(g('txn_id'))}, type {show(g('log_record_type'))}, after {show(g('prev_lsn'))}", f, what="records made")
        for q, n in GET.items():
            fq = c.P.get(REC + "::" + q)
            k, a = s.call(fq, p)
            w = fields.get(n)
            x = deep(s.o.interp, s.o.state, a.a[2][0][1]) if k == "return" and a.k == "adt" and a.a[1] == "Some" else None
            c.require(k == "return" and x == w, f"make:{fn}:{ty}:{q}", f"{q} of a {ty} record answers {show(x) if x is not None else show(a)} instead of {show(w) if w is not None else 'nothing'}", fq, what="records made")
        for q, w in (("get_txn_id", mk("arg", 0, "txn")), ("get_prev_lsn", mk("arg", 0, "prev")), ("is_commit", I(int(ty == "Commit"))), ("get_log_record_type", unit(RTY, ty))):
            fq = c.P.get(REC + "::" + q)
            k, a = s.call(fq, p)
            c.require(k == "return" and a == w, f"make:{fn}:{ty}:{q}", f"{q} of a {ty} record answers {show(a)}", fq, what="records made")
        k, a = s.call(c.P.get(REC + "::set_lsn"), p, I(41))
        k, a = s.call(c.P.get(REC + "::get_lsn"), p)
        c.require(a == I(41), f"make:{fn}:{ty}:lsn", f"a record given LSN 41 answers {show(a)}", f)
