"""The disk layer: the two files, tracked operations, durability, cached and buffered pages."""
import itertools
from interp import *
from colls import L, M, elems, pairs, loc
from ctx import sym, unit, cell, last, Session
from prog import AnchorError
from rules.txn import lockcell, atomic
from rules.wal import deep

AD = "storage::disk::async_disk::"
EXE = AD + "io::executor::IOOperationExecutor"
OP = AD + "io::operations::IOOperationType"
ENG = AD + "io::io_impl::AsyncIOEngine"
DIO = "storage::disk::direct_io::DirectIOConfig"
ABUF = "storage::disk::direct_io::AlignedBuffer"
PAGE = 4096


def data(name, n):
    return [mk("b", name, i) for i in range(n)]


class Files:
    """two files as a tokio File sees them; every call can be made to fail"""

    def __init__(self, c, fail=None):
        self.c, self.fail, self.calls = c, fail, 0
        self.data = {"db": [], "log": []}
        self.pos = {"db": 0, "log": 0}
        self.held = {"db": [], "log": []}
        self.trace = []
        self.failed = False

    def name(self, it, st, v):
        v = deep(it, st, v)
        return v.a[0] if v.k == "file" else None

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if p.startswith(ABUF):
            if n == "new":
                return [(st, L(*[I(0)] * args[0].a[0]))]
            if n in ("from_slice_with_size", "from_slice"):
                xs = elems(deep(it, st, args[0]))
                size = args[1].a[0] if n == "from_slice_with_size" else len(xs)
                return [(st, L(*(xs + (I(0),) * size)[:size]))]
            if n in ("as_slice", "as_mut_slice"):
                return [(st, args[0])]
            if n == "to_vec":
                return [(st, deep(it, st, args[0]))]
        if not args or n not in ("seek", "read_exact", "write_all", "flush", "sync_all", "sync_data", "metadata", "set_len", "read", "write", "read_to_end", "rewind", "stream_position"):
            return None
        f = self.name(it, st, args[0])
        if f is None:
            return None
        self.calls += 1
        if self.calls - 1 == self.fail:
            self.failed = True
            self.trace.append((f, n, "failed"))
            if n in ("flush", "write_all"):
                self.held[f] = []
            return [(st, mk("ready", err(mk("ioerr", "disk"))))]
        D = self.data[f]
        if n != "metadata":
            self.trace.append((f, n))
        if n == "seek":
            w = deep(it, st, args[1])
            x = w.a[2][0][1] if w.k == "adt" and w.a[2] else None
            if x is None or x.k != "i":
                return None
            base = {"Start": 0, "End": len(D), "Current": self.pos[f]}[w.a[1]]
            to = base + x.a[0]
            self.pos[f] = to
            return [(st, mk("ready", ok(I(to))))]
        if n == "read_exact":
            root, path, v = loc(it, st, args[1])
            size = it.length(st, v)
            size = size.a[0]
            at = self.pos[f]
            if at + size > len(D):
                return [(st, mk("ready", err(mk("ioerr", "UnexpectedEof"))))]
            it.store(st, root, path, L(*D[at:at + size]))
            self.pos[f] = at + size
            return [(st, mk("ready", ok(I(size))))]
        if n == "write_all":
            xs = list(elems(deep(it, st, args[1])) or ())
            self.held[f].append((self.pos[f], xs))
            self.pos[f] += len(xs)
            return [(st, mk("ready", ok(UNIT)))]
        if n == "flush":
            for at, xs in self.held[f]:
                if len(D) < at:
                    D += [I(0)] * (at - len(D))
                D[at:at + len(xs)] = xs
            self.held[f] = []
            return [(st, mk("ready", ok(UNIT)))]
        if n in ("sync_all", "sync_data"):
            return [(st, mk("ready", ok(UNIT)))]
        if n == "metadata":
            return [(st, mk("ready", ok(mk("meta", len(D)))))]
        return None


def op(variant, **f):
    return adt(OP, variant, tuple(f.items()))


def val(xs):
    return tuple(elems(xs)) if elems(xs) is not None else None


class Disk:
    """the executor over the two files, against a plain model of their contents"""

    def __init__(self, c, direct, fail=None):
        self.c = c
        self.F = Files(c, fail)
        self.s = s = Session(c, intercept=self.F.icept)
        db, log = s.alloc(lockcell(mk("file", "db"))), s.alloc(lockcell(mk("file", "log")))
        cfg = c.obj(DIO, "cfg", enabled=I(int(direct)), alignment=I(512))
        k, v = s.call(c.P.get(EXE + "::with_config"), db, log, cfg)
        self.exe = s.alloc(v)
        self.fn = c.P.get(EXE + "::execute_operation_type")

    def run(self, o):
        self.F.trace = []
        self.F.failed = False
        k, v = self.s.call(self.fn, self.exe, o)
        if k != "return":
            return "panic", None
        if v.k == "adt" and v.a[1] == "Ok":
            return "ok", val(v.a[2][0][1])
        return "err", None


def brief(o):
    f = dict(o.a[2])
    return o.a[1] + " " + " ".join(f"{k}={f[k].a[0]}" if f[k].k == "i" else f"{len(elems(f[k]))} bytes" for k in f)


def files(c):
    """F02: pages and log bytes are where they were put, and failures are reported"""
    fn = c.P.get(EXE + "::execute_operation_type")
    pg = {n: data(n, PAGE) for n in "ABC"}
    W = lambda p, n: op("WritePage", page_id=I(p), data=L(*pg[n]))
    R = lambda p: op("ReadPage", page_id=I(p))
    AP = lambda n, k: op("AppendLog", data=L(*data(n, k)))
    RL = lambda o, k: op("ReadLog", offset=I(o), size=I(k))
    WL = lambda o, n, k: op("WriteLog", data=L(*data(n, k)), offset=I(o))
    SY, SL = op("Sync"), op("SyncLog")
    runs = {
        "pages": [W(0, "A"), W(3, "B"), R(0), R(3), R(1), W(0, "C"), R(0), R(3), R(4), SY, W(2, "A"), R(2), R(3)],
        "far pages": [W(1, "A"), R(1), R(0), W(2, "B"), R(1), R(2), R(70000), SY],
        "log": [AP("x", 20), AP("y", 30), RL(0, 20), RL(20, 30), RL(10, 30), RL(45, 10), SL, AP("z", 1), RL(50, 1), AP("e", 0), RL(0, 51), RL(51, 0), AP("w", 5), RL(51, 5)],
        "log overwrite": [AP("x", 40), WL(10, "y", 5), RL(0, 40), AP("z", 10), RL(40, 10), WL(60, "q", 4), RL(60, 4), RL(48, 12), WL(0, "e", 0), AP("v", 3), RL(64, 3)],
        "both": [W(0, "A"), AP("x", 10), W(1, "B"), AP("y", 10), R(0), RL(0, 20), R(1), SY, SL],
        "wrong sizes": [op("WritePage", page_id=I(0), data=L(*data("s", 4095))), op("WritePage", page_id=I(0), data=L(*data("s", 4097))), op("WritePage", page_id=I(0), data=L()), R(0)],
    }
    for direct in (False, True):
        for name, seq in runs.items():
            n0 = None
            fail = None
            d = Disk(c, direct)
            total = play(c, d, seq, f"{name}:{int(direct)}", fn)
            if name in ("pages", "log", "log overwrite", "both"):
                for fail in range(total):
                    d = Disk(c, direct, fail)
                    play(c, d, seq, f"{name}:{int(direct)}:fail{fail}", fn)
    queued(c)
    c.floor("operations", 300)


def play(c, d, seq, key, fn):
    model = {"db": [], "log": []}
    F = d.F
    unknown = set()
    for i, o in enumerate(seq):
        f = dict(o.a[2])
        kind = o.a[1]
        n = "db" if "Page" in kind or kind == "Sync" else "log"
        M_ = model[n]
        what = f"{key.split(':')[0]}, step {i} ({brief(o)})"
        got, v = d.run(o)
        k = f"{key}:{i}"
        if F.failed:
            c.require(got == "err", k, f"{what}: a failing {F.trace[-1][1]} of the {n} file is not reported", fn, what="operations")
            if not kind.startswith("Read") and not kind.startswith("Sync"):
                # what a failed write left behind is unspecified; the rest of the run would be too
                bad = [t for t in F.trace if t[0] != n]
                c.require(not bad, k + ":file", f"{what}: touches the {bad[0][0] if bad else ''} file", fn)
                return F.calls
            continue
        want, wv = "ok", ()
        if kind == "WritePage":
            xs, at = list(elems(f["data"])), f["page_id"].a[0] * PAGE
            if len(xs) != PAGE:
                want = "err"
            else:
                wv = tuple(xs)
                put_at(M_, at, xs)
        elif kind in ("WriteLog", "AppendLog"):
            xs = list(elems(f["data"]))
            at = f["offset"].a[0] if kind == "WriteLog" else len(M_)
            if xs:
                put_at(M_, at, xs)
            wv = tuple(xs) if kind == "WriteLog" else tuple(I(b) for b in at.to_bytes(8, "little"))
        elif kind.startswith("Read"):
            at, size = (f["page_id"].a[0] * PAGE, PAGE) if kind == "ReadPage" else (f["offset"].a[0], f["size"].a[0])
            if at + size > len(M_) and size:
                want = "err"
            else:
                wv = tuple(M_[at:at + size])
        good = got == want and (want == "err" or v == wv)
        c.require(good, k, f"{what}: answers {got}" + ("" if v is None else f" {[show(x) for x in v[:4]]}.. ({len(v)} bytes)") + f" instead of {want}" + ("" if want == "err" else f" {[show(x) for x in wv[:4]]}.. ({len(wv)} bytes)"), fn, what="operations")
        bad = [t for t in F.trace if t[0] != n]
        c.require(not bad, k + ":file", f"{what}: touches the {bad[0][0] if bad else ''} file", fn)
        c.require(not any(F.held.values()) and F.data == model, k + ":at", f"{what}: the {n} file does not hold what was written at its place" + (" (it is not flushed)" if any(F.held.values()) else ""), fn)
        if kind.startswith("Sync"):
            c.require(any(t[1] in ("sync_all", "sync_data") for t in F.trace), k + ":sync", f"{what}: returns without syncing the file", fn)
        if not good:
            return F.calls
    return F.calls


def put_at(m, at, xs):
    if len(m) < at:
        m += [I(0)] * (at - len(m))
    m[at:at + len(xs)] = xs


def queued(c):
    pass


# ---------------------------------------------------------------- tracked operations
TRK = AD + "io::completion::CompletionTracker"
TCFG = AD + "io::completion::CompletionTrackerConfig"
STA = AD + "io::operation_status::OperationStatus"
RES = AD + "io::operation_status::OperationResult"
QUE = AD + "io::queue::IOQueueManager"
IOP = AD + "io::operations::IOOperation"
WRK = AD + "io::worker::IOWorkerManager"


def success(xs):
    return adt(RES, "Success", (("0", xs),))


def failure(m):
    return adt(RES, "Error", (("0", m),))


class Tracker:
    """the tracker, its queue and their clock; oneshot channels record what their receivers get"""

    def __init__(self, c, most=10000):
        self.c = c
        self.s = s = Session(c, intercept=self.icept)
        self.chan, self.sent, self.clock = 0, {}, 0
        self.late = set()
        self.answer = None
        self.executed = []
        self.ops = s.alloc(lockcell(M()))
        cfg = c.obj(TCFG, "cfg", max_tracked_operations=I(most), default_timeout=some(mk("limit")), completed_operation_ttl=mk("ttl"))
        self.trk = s.alloc(c.obj(TRK, "trk", operations=self.ops, next_id=atomic(I(1)), config=cfg, metrics=sym("metrics"), event_sender=sym("events")))
        self.q = s.alloc(lockcell(L()))
        self.que = s.alloc(c.obj(QUE, "que", queue=self.q))
        self.eng = s.alloc(c.obj(ENG, "eng", queue_manager=self.que, completion_tracker=self.trk, executor=sym("executor")))
        self.polled = None

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if n == "channel" and "oneshot" in p:
            self.chan += 1
            return [(st, tup(mk("tx", self.chan), mk("rx", self.chan)))]
        if "oneshot" in p and n == "send":
            t = deep(it, st, args[0])
            self.sent.setdefault(t.a[0], []).append(deep(it, st, args[1]))
            return [(st, ok(UNIT))]
        if n == "into_future" and deep(it, st, args[0]).k == "rx":
            return [(st, args[0])]
        if n == "poll":
            x = args[0]
            while x.k == "ref" or x.k == "adt" and x.a[0].endswith("Pin"):
                x = it.deref(st, x) if x.k == "ref" else x.a[2][0][1]
            if x.k == "rx":
                self.polled = x.a[0]
                return [(st, adt("core::task::poll::Poll", "Ready", (("0", self.answer),)))]
        if "broadcast" in p and n == "send":
            return [(st, ok(I(1)))]
        if "IOMetrics" in p:
            return [(st, mk("ready", UNIT) if n == "record_operation_complete" else UNIT)]
        if n == "now" and "Instant" in p:
            self.clock += 1
            return [(st, I(self.clock))]
        if n == "elapsed":
            return [(st, mk("dur", deep(it, st, args[0])))]
        if n in ("gt", "ge", "lt", "le") and len(args) == 2:
            a, b = deep(it, st, args[0]), deep(it, st, args[1])
            if a.k == "dur" and b.k == "limit":
                over = a.a[0].a[0] in self.late
                return [(st, I(int(over == (n in ("gt", "ge")))))]
        if n == "sub" and "Instant" in str(u):
            return [(st, I(0))]
        if n == "execute_operation_type":
            self.executed.append(deep(it, st, args[1]))
            return [(st, mk("ready", self.answer))]
        if n == "acquire" and "Semaphore" in p:
            return [(st, mk("ready", ok(sym("permit"))))]
        if n == "must_use" or "fmt" in p:
            return None
        return None

    def call(self, path, *args):
        return self.s.call(self.c.P.get(path), *args)


def tracked(c):
    """F03: every operation is executed and answered exactly once, with its own result"""
    wrappers(c)
    histories(c)
    workers(c)
    order(c)
    c.floor("calls answered", 60)
    c.floor("steps of histories", 500)
    c.floor("operations worked on", 80)
    c.floor("queues emptied", 20)


STEPS = [("ok", 1), ("ok", 2), ("err", 1), ("cancel", 1), ("cancel", 2), ("late", 1), ("all", 0), ("start", 0)]


def histories(c):
    g = lambda n: c.P.get(TRK + "::" + n)
    for steps in [x for n in (1, 2, 3) for x in itertools.product(STEPS, repeat=n)]:
        t = Tracker(c, most=2)
        ids, model, sends = [], {}, {}

        def start():
            k, v = t.s.call(g("start_operation"), t.trk, NONE)
            i = t.s.o.interp.proj(v, (".", "0"))
            rx = t.s.o.interp.proj(v, (".", "1"))
            new = rx.k == "rx" and i.k == "i" and i not in ids
            c.require(new, f"history:{steps}:start", f"starting an operation answers {show(v)} after {[show(x) for x in ids]}", g("start_operation"), what="steps of histories")
            ids.append(i)
            model[len(ids)] = None
            sends[len(ids)] = rx.a[0] if rx.k == "rx" else -1
        start()
        start()
        for at, (kind, n) in enumerate(steps):
            what = f"two operations, then {', '.join(a + (' ' + str(b) if b else '') for a, b in steps[:at + 1])}"
            key = f"history:{steps[:at + 1]}"
            was = model.get(n)
            if kind == "start":
                start()
                continue
            if kind == "ok":
                f = g("complete_operation")
                k, v = t.s.call(f, t.trk, ids[n - 1], L(mk("b", "A", n)))
                new = ("ok", success(L(mk("b", "A", n))))
            elif kind == "err":
                f = g("fail_operation")
                k, v = t.s.call(f, t.trk, ids[n - 1], sym("why"))
                new = ("err", failure(sym("why")))
            elif kind == "cancel":
                f = g("cancel_operation")
                k, v = t.s.call(f, t.trk, ids[n - 1], sym("why"))
                new = ("cancel", None)
            elif kind == "late":
                f = g("check_timeouts")
                # the instant the operation started
                st = dict(pairs(it_data(t, t.ops))).get(ids[n - 1])
                if not c.require(st is not None or was is not None, key + ":lost", f"{what}: the pending operation {n} is forgotten", g("start_operation")):
                    break
                t.late = {t.s.o.interp.proj(st, (".", "started_at")).a[0]} if was is None else set()
                k, v = t.s.call(f, t.trk)
                t.late = set()
                c.require(v == I(int(was is None)), key, f"{what}: {show(v)} operations are said to have timed out", f, what="steps of histories")
                if was is None:
                    model[n] = ("late", None)
            elif kind == "all":
                f = g("cancel_all_pending")
                k, v = t.s.call(f, t.trk, sym("why"))
                live = [i for i in model if model[i] is None]
                c.require(v == I(len(live)), key, f"{what}: {show(v)} operations are said to be cancelled", f, what="steps of histories")
                for i in live:
                    model[i] = ("cancel", None)
            if kind in ("ok", "err", "cancel"):
                if was is None:
                    model[n] = new
                c.require(k == "return" and v.k == "adt" and v.a[1] == ("Ok" if was is None else "Err"), key, f"{what}: the last step answers {show(v)[:60]}", f, what="steps of histories")
            for i in model:
                got = t.sent.get(sends[i], [])
                m = model[i]
                if m is None or m[0] == "cancel":
                    fine = not got
                elif m[0] == "late":
                    fine = len(got) == 1 and got[0].k == "adt" and got[0].a[1] == "Error"
                else:
                    fine = got == [m[1]]
                c.require(fine, key + f":op{i}", f"{what}: the caller of operation {i} is told {[show(x)[:60] for x in got]}", f)
                k, v = t.s.call(g("is_operation_pending"), t.trk, ids[i - 1])
                c.require(v == I(int(m is None)), key + f":pending{i}", f"{what}: operation {i} counts as {'pending' if v == TRUE else 'not pending'}", g("is_operation_pending"))


def workers(c):
    f = c.P.get(WRK + "::process_operation")
    g = lambda n: c.P.get(TRK + "::" + n)
    buf = L(mk("b", "A", 0))
    ops = [op("WritePage", page_id=I(7), data=buf), op("ReadPage", page_id=I(7)), op("AppendLog", data=buf), op("WriteLog", data=buf, offset=I(4)), op("ReadLog", offset=I(4), size=I(1)),
           op("Sync"), op("SyncLog")]
    if {o.a[1] for o in ops} != set(c.variants(OP)):
        raise AnchorError(f"the kinds of operation have changed: {c.variants(OP)}")
    for state, o in itertools.product(("pending", "cancelled", "late", "unknown"), ops):
        for answer in (ok(L(mk("b", "A", 0))), err(mk("ioerr", "disk"))):
            t = Tracker(c)
            k, v = t.s.call(g("start_operation"), t.trk, NONE)
            k, v = t.s.call(g("start_operation"), t.trk, NONE)
            i = t.s.o.interp.proj(v, (".", "0"))
            if state == "cancelled":
                t.s.call(g("cancel_operation"), t.trk, i, sym("why"))
            if state == "late":
                t.s.call(g("fail_operation"), t.trk, i, sym("late"))
            if state == "unknown":
                i = I(99)
            before = len(t.sent.get(2, []))
            t.answer = answer
            w = c.obj(IOP, "w", priority=I(7), id=i, operation_type=o, submitted_at=I(1))
            k, v = t.s.call(f, w, sym("executor"), t.trk, sym("limiter"))
            good = answer.a[1] == "Ok"
            what = f"a worker given a {state} {o.a[1]} that would {'succeed' if good else 'fail'}"
            c.require(k == "return" and t.executed == ([o] if state == "pending" else []), f"work:{state}:{o.a[1]}:{int(good)}", f"{what}: executes {[show(x)[:60] for x in t.executed]}", f, what="operations worked on")
            got = t.sent.get(2, [])[before:]
            want = state == "pending"
            fine = len(got) == int(want) and (not want or (got[0] == success(L(mk("b", "A", 0))) if good else got[0].a[1] == "Error"))
            c.require(fine and not t.sent.get(1), f"work:{state}:{o.a[1]}:{int(good)}:told", f"{what}: the caller is told {[show(x)[:60] for x in got]}", f, what="operations worked on")


def order(c):
    """the most urgent operation first, and among equals the earliest"""
    fe, fd = c.P.get(QUE + "::enqueue_operation"), c.P.get(QUE + "::dequeue_operation")
    for prios in itertools.product((1, 5, 9), repeat=3):
        t = Tracker(c)
        for n, pr in enumerate(prios):
            t.s.call(fe, t.que, op("ReadPage", page_id=I(n)), I(pr), I(n + 1))
        got = []
        for _ in range(4):
            k, v = t.s.call(fd, t.que)
            if k == "return" and v.k == "adt" and v.a[1] == "Some":
                x = v.a[2][0][1]
                got.append((t.s.o.interp.proj(x, (".", "id")).a[0], show(t.s.o.interp.proj(x, (".", "operation_type")))))
        want = [n for n in sorted(range(3), key=lambda n: (-prios[n], n))]
        c.require(got == [(n + 1, show(op("ReadPage", page_id=I(n)))) for n in want], f"order:{prios}", f"operations queued with priorities {prios} leave the queue as {got}, not in the order {[n + 1 for n in want]}", fd, what="queues emptied")


def it_data(t, p):
    return t.s.o.interp.proj(t.s.load(p), (".", "data"))


def wrappers(c):
    A = data("A", 20)
    lst = L(*A)
    off = L(*[I(b) for b in (0x0102030405).to_bytes(8, "little")])
    cases = [
        ("read_page", [I(7)], op("ReadPage", page_id=I(7)), lst, lst),
        ("write_page", [I(7), "buf"], op("WritePage", page_id=I(7), data=lst), lst, UNIT),
        ("sync", [], op("Sync"), L(), UNIT),
        ("read_log", [I(40), I(20)], op("ReadLog", offset=I(40), size=I(20)), lst, lst),
        ("write_log", ["buf", I(40)], op("WriteLog", data=lst, offset=I(40)), lst, UNIT),
        ("append_log", ["buf"], op("AppendLog", data=lst), off, I(0x0102030405)),
        ("sync_log", [], op("SyncLog"), L(), UNIT),
    ]
    for name, args, want, raw, out in cases:
        for kind in ("ok", "error", "dropped"):
            t = Tracker(c)
            f = c.P.get(ENG + "::" + name)
            t.answer = {"ok": ok(success(raw)), "error": ok(failure(sym("msg"))), "dropped": err(sym("recv"))}[kind]
            k, v = t.s.call(f, t.eng, *[t.s.alloc(lst) if a == "buf" else a for a in args])
            xs = elems(it_data(t, t.q))
            g = (lambda x, n: t.s.o.interp.proj(x, (".", n)))
            what = f"{name}({', '.join(show(a) if a != 'buf' else 'data' for a in args)})"
            c.require(xs is not None and len(xs) == 1 and g(xs[0], "operation_type") == want, f"wrap:{name}", f"{what} queues {[show(g(x, 'operation_type'))[:80] for x in xs or ()]}", f, what="calls answered")
            good = xs and t.polled == 1 and [show(k2) for k2, _ in pairs(it_data(t, t.ops))] == [show(g(xs[0], "id"))]
            c.require(good, f"wrap:{name}:id", f"{what} does not wait for the operation it queued", f, what="calls answered")
            want_v = ok(out) if kind == "ok" else None
            c.require(k == "return" and (v == want_v if want_v else v.k == "adt" and v.a[1] == "Err"), f"wrap:{name}:{kind}",
                      f"{what} answers {show(v)[:80]} when its operation " + {"ok": "succeeds", "error": "fails", "dropped": "is cancelled"}[kind], f, what="calls answered")
