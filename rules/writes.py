"""The write buffer, the page cache and the scheduler in front of the disk files."""
import itertools
from interp import *
from colls import L, M, elems, pairs, loc
from ctx import sym, unit, cell, last, Session
from prog import AnchorError
from rules.txn import lockcell, atomic
from rules.wal import deep

AD = "storage::disk::async_disk::"
ADM = AD + "manager::AsyncDiskManager"
ENG = AD + "io::io_impl::AsyncIOEngine"
CFG = AD + "config::DiskManagerConfig"
FSY = AD + "config::FsyncPolicy"
DUR = AD + "config::DurabilityLevel"
WM = AD + "memory::write_manager::WriteManager"
CM = AD + "cache::cache_manager::CacheManager"
SCH = AD + "scheduler::WorkStealingScheduler"
TASK = AD + "scheduler::IOTask"
PAGE = 4096


def page(n):
    return mk("repeat", mk("b", n, 0), str(PAGE))


def name(v):
    """which page's bytes these are, 'zeros' or None"""
    if v.k == "repeat" and v.a[1] == str(PAGE):
        return v.a[0].a[0] if v.a[0].k == "b" else None
    xs = elems(v)
    if xs is not None and len(xs) == PAGE and len(set(xs)) == 1 and xs[0].k == "b":
        return xs[0].a[0]
    return None


def ready(v):
    return [v] and mk("ready", v)


class World:
    """the real manager and write buffer over a scripted engine, cache, scheduler and clock"""

    def __init__(self, c, cache="off", stealing=False, batch=64, threshold=100, room=100, policy="OnFlush", level="Sync", wal=True, late=False, fail=None):
        self.c, self.cache_mode, self.fail, self.late = c, cache, fail, late
        self.disk, self.synced, self.logsyncs = {}, {}, 0
        self.syncs, self.calls, self.failed = 0, 0, False
        self.cached = {}
        self.tasks, self.out = {}, 0
        self.order = []
        self.s = s = Session(c, intercept=self.icept)
        pol = adt(FSY, policy, (("0", mk("dur", "period")),)) if policy == "Periodic" else unit(FSY, policy)
        cfg = c.obj(CFG, "cfg", batch_size=I(batch), cache_size_mb=I(int(cache != "off")), write_buffer_size_mb=I(64), flush_threshold_pages=I(threshold), flush_interval_ms=I(1000),
                    compression_enabled=FALSE, fsync_policy=pol, durability_level=unit(DUR, level), wal_enabled=I(int(wal)), work_stealing_enabled=I(int(stealing)))
        k, v = s.call(c.P.get(WM + "::new"), s.alloc(cfg))
        if k != "return":
            raise AnchorError("the write manager cannot be made")
        wm = s.alloc(v)
        n = 0
        for root, x in list(s.mem.items()):
            y = resize(x, I(room * PAGE))
            n += y != x
            s.mem[root] = y
        if n != 1:
            raise AnchorError(f"{n} staging buffers found")
        self.adm = s.alloc(c.obj(ADM, "adm", io_engine=s.alloc(lockcell(mk("engine"))), write_manager=wm, cache_manager=s.alloc(mk("cache")), config=cfg, scheduler=s.alloc(mk("sched")),
                                 is_shutting_down=s.alloc(atomic(FALSE)), background_tasks=lockcell(L())))

    def step(self, what):
        self.calls += 1
        self.order.append(what)
        if self.fail is not None and self.calls - 1 == self.fail:
            self.failed = True
            return True
        return False

    def eng_write(self, p, v):
        if self.step(f"write {p}"):
            return err(mk("ioerr", "disk"))
        self.disk[p] = v
        return ok(UNIT)

    def eng_read(self, p):
        if self.step(f"read {p}"):
            return err(mk("ioerr", "disk"))
        return ok(self.disk[p]) if p in self.disk else err(mk("ioerr", "eof"))

    def eng_sync(self):
        if self.step("sync"):
            return err(mk("ioerr", "disk"))
        self.synced = dict(self.disk)
        self.syncs += 1
        return ok(UNIT)

    def serve(self, it, st, t):
        """what a worker that executes the task answers"""
        f = dict(t.a[2])
        k = f["task_type"].a[1]
        x = dict(f["task_type"].a[2]).get("0")
        if k == "Read":
            return self.eng_read(x.a[0])
        if k == "BatchRead":
            out = []
            for p in elems(x):
                r = self.eng_read(p.a[0])
                if r.a[1] == "Err":
                    return r
                out += [r.a[2][0][1].a[0]] * PAGE
            return ok(L(*out))
        if k == "BatchWrite":
            for pr in elems(x):
                pr = deep(it, st, pr)
                r = self.eng_write(it.proj(pr, (".", "0")).a[0], it.proj(pr, (".", "1")))
                if r.a[1] == "Err":
                    return r
            return ok(L())
        if k == "Sync":
            return self.eng_sync()
        return None

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if p.startswith(ENG + "::"):
            if n == "write_page":
                return [(st, mk("ready", self.eng_write(deep(it, st, args[1]).a[0], deep(it, st, args[2]))))]
            if n == "read_page":
                return [(st, mk("ready", self.eng_read(deep(it, st, args[1]).a[0])))]
            if n == "sync":
                return [(st, mk("ready", self.eng_sync()))]
            if n in ("sync_log", "sync_log_direct"):
                if self.step("sync log"):
                    return [(st, mk("ready", err(mk("ioerr", "disk"))))]
                self.logsyncs += 1
                return [(st, mk("ready", ok(UNIT)))]
            if n in ("cancel_all_pending_operations", "clear_queue"):
                return [(st, mk("ready", I(0)))]
            if n == "stop":
                return [(st, mk("ready", UNIT))]
        if p.startswith(CM + "::"):
            if n in ("get_page_with_metrics", "get_page_internal", "get_page"):
                k = deep(it, st, args[1]).a[0]
                return [(st, some(self.cached[k]) if k in self.cached else NONE)]
            if n.startswith("store_page"):
                k = deep(it, st, args[1]).a[0]
                if self.cache_mode == "keeps":
                    self.cached[k] = deep(it, st, args[2])
                else:
                    self.cached.pop(k, None)
                return [(st, UNIT)]
            if n == "remove_page" or n == "invalidate_page":
                self.cached.pop(deep(it, st, args[1]).a[0], None)
                return [(st, TRUE)]
        if p.startswith(SCH + "::") and n == "submit_task":
            t = deep(it, st, args[1])
            f = dict(t.a[2])
            cb = deep(it, st, f["completion_callback"])
            if cb.k == "adt" and cb.a[1] == "Some" and cb.a[2][0][1].k == "tx":
                a = self.serve(it, st, t)
                if a is not None:
                    self.tasks[cb.a[2][0][1].a[0]] = a
            return [(st, mk("ready", ok(UNIT)))]
        if n == "channel" and "oneshot" in p:
            self.out += 1
            return [(st, tup(mk("tx", self.out), mk("rx", self.out)))]
        if n == "into_future" and args and deep(it, st, args[0]).k == "rx":
            return [(st, args[0])]
        if n == "poll" and args:
            x = args[0]
            while x.k == "ref" or x.k == "adt" and x.a[0].endswith("Pin"):
                x = it.deref(st, x) if x.k == "ref" else x.a[2][0][1]
            if x.k == "rx":
                a = self.tasks.get(x.a[0])
                return [(st, adt("core::task::poll::Poll", "Ready", (("0", ok(a) if a is not None else err(mk("cancelled"))),)))]
        if "MetricsCollector" in p or "LiveMetrics" in p:
            return [(st, UNIT if n != "get_live_metrics" else sym("live"))]
        if n in ("elapsed", "as_nanos") or n == "now" and "Instant" in p:
            return [(st, mk("dur", n))]
        if n in ("ge", "gt", "le", "lt") and len(args) == 2 and {"dur"} == {deep(it, st, a).k for a in args}:
            return [(st, I(int(self.late == (n in ("ge", "gt")))))]
        if n in ("from_millis", "from_secs") and "Duration" in p:
            return [(st, mk("dur", n))]
        if n == "sleep":
            return [(st, mk("ready", UNIT))]
        return None

    def run(self, fn, *args):
        self.failed, self.order = False, []
        k, v = self.s.call(self.c.P.get(ADM + "::" + fn), self.adm, *args)
        if k != "return":
            return "panic", None
        if v.k == "adt" and v.a[1] in ("Ok", "Err"):
            return v.a[1].lower(), v.a[2][0][1]
        return "?", v


def resize(v, size):
    """the staging buffer's capacity, wherever it is"""
    if v.k == "adt":
        return adt(v.a[0], v.a[1], tuple((k, size if k == "max_buffer_size" else resize(x, size)) for k, x in v.a[2]))
    return v


W = lambda p, n: ("write", p, n)
R = lambda p: ("read", p)
WB = lambda *ps: ("batch", ps)
RB = lambda *ps: ("reads", ps)
FL, FD, FF, SH, SY = ("flush",), ("durable",), ("force",), ("shutdown",), ("sync",)

SCRIPTS = {
    "rewrite": [W(1, "A"), R(1), W(1, "B"), R(1), FL, R(1), W(1, "C"), R(1), FL],
    "several": [W(1, "A"), W(2, "B"), W(3, "C"), R(2), W(2, "D"), W(4, "E"), R(2), R(1), FL, R(3), R(4), RB(1, 2, 3, 4)],
    "batches": [WB((1, "A"), (2, "B"), (3, "C")), RB(1, 2, 3), WB((2, "D"), (2, "E")), RB(2, 1), FD, RB(1, 2, 3), R(2)],
    "forced": [WB((1, "A"), (2, "B"), (3, "C"), (4, "D")), FF, RB(4, 1), W(1, "E"), FF, R(1), FF],
    "closed": [W(1, "A"), W(2, "B"), W(1, "C"), SH],
    "mixed": [W(1, "A"), FL, W(1, "B"), R(1), RB(1, 1), W(2, "C"), R(2), R(1), FF, RB(2, 1), RB(2, 1, 2)],
}


def title(st):
    k = st[0]
    if k == "write":
        return f"write {st[2]} to page {st[1]}"
    if k == "batch":
        return "write " + ", ".join(f"{n} to page {p}" for p, n in st[1]) + " as a batch"
    if k == "read":
        return f"read page {st[1]}"
    if k == "reads":
        return "read pages " + ", ".join(map(str, st[1])) + " as a batch"
    return {"flush": "flush", "durable": "flush with durability", "force": "flush everything", "shutdown": "shut down", "sync": "sync"}[k]


FN = {"write": "write_page", "batch": "write_pages_batch", "read": "read_page", "reads": "read_pages_batch", "flush": "flush", "durable": "flush_writes_with_durability",
      "force": "force_flush_all", "shutdown": "shutdown", "sync": "sync"}


def call(w, st):
    k = st[0]
    if k == "write":
        return w.run(FN[k], I(st[1]), page(st[2]))
    if k == "batch":
        return w.run(FN[k], L(*[tup(I(p), page(n)) for p, n in st[1]]))
    if k == "read":
        return w.run(FN[k], I(st[1]))
    if k == "reads":
        return w.run(FN[k], L(*[I(p) for p in st[1]]))
    return w.run(FN[k])


def play(c, cfg, script, sname, fail=None):
    w = World(c, fail=fail, **cfg)
    conf = " ".join(f"{k}={v}" for k, v in cfg.items()) or "defaults"
    # what each page may hold: the last acknowledged write, or a write that failed since
    may = {}
    key = f"{sname}:{conf}:{fail}"
    for i, st in enumerate(script):
        fn = c.P.get(ADM + "::" + FN[st[0]])
        what = f"[{conf}] {', '.join(title(x) for x in script[:i + 1])}" + (f" (device call {fail} fails)" if fail is not None else "")
        k, v = call(w, st)
        if not c.require(k in ("ok", "err"), f"{key}:{i}", f"{what}: does not answer", fn, what="requests"):
            break
        if k == "err" and not w.failed and st[0] in ("read", "reads") and any(None in may.get(p, {None}) for p in ([st[1]] if st[0] == "read" else st[1])):
            continue  # a page whose only write failed was never on disk
        if k == "err" and not w.failed:
            c.require(False, f"{key}:{i}", f"{what}: the last request fails although no device call does", fn, what="requests")
            break
        if w.failed:
            c.require(k == "err", f"{key}:{i}:told", f"{what}: the last request succeeds although the {w.order[-1]} failed", fn, what="failures")
        writes = [(st[1], st[2])] if st[0] == "write" else list(st[1]) if st[0] == "batch" else []
        for p, n in writes:
            may[p] = {n} if k == "ok" else may.get(p, {None}) | {n}
        if k == "ok" and st[0] in ("read", "reads"):
            ps = [st[1]] if st[0] == "read" else list(st[1])
            vs = [v] if st[0] == "read" else list(elems(v) or ())
            got = [name(x) for x in vs]
            c.require(len(got) == len(ps) and all(g in may[p] for g, p in zip(got, ps)), f"{key}:{i}:read",
                      f"{what}: the last request answers {got} instead of {['/'.join(sorted(map(str, may[p]))) for p in ps]}", fn, what="reads answered")
        if k == "ok" and st[0] in ("flush", "durable", "force", "shutdown"):
            held = {p: name(x) for p, x in w.disk.items()}
            lost = [p for p in may if held.get(p) not in may[p]]
            c.require(not lost, f"{key}:{i}:disk", f"{what}: page {lost and lost[0]} is not on disk after the flush", fn, what="flushes")
            pol, lev = cfg.get("policy", "OnFlush"), cfg.get("level", "Sync")
            if pol != "Never" or st[0] in ("force", "shutdown") or lev == "Durable":
                safe = {p: name(x) for p, x in w.synced.items()}
                lost = [p for p in may if safe.get(p) not in may[p]]
                c.require(not lost, f"{key}:{i}:synced", f"{what}: page {lost and lost[0]} is not synced after the flush", fn, what="flushes")
    else:
        if not (script and script[-1] == SH and k == "ok"):
            # whatever happened, every acknowledged write is still there, and a flush makes it durable
            w.fail = None
            for p in sorted(may):
                k, v = w.run("read_page", I(p))
                if may[p] == {None} or None in may[p] and k == "err":
                    continue
                fn = c.P.get(ADM + "::read_page")
                c.require(k == "ok" and name(v) in may[p], f"{key}:end:{p}", f"{what}: page {p} afterwards reads as {name(v) if k == 'ok' else 'an error'} instead of {'/'.join(sorted(map(str, may[p])))}", fn, what="reads answered")
            k, v = w.run("force_flush_all")
            fn = c.P.get(ADM + "::force_flush_all")
            safe = {p: name(x) for p, x in w.synced.items()}
            lost = [p for p in may if None not in may[p] and safe.get(p) not in may[p]]
            c.require(k == "ok" and not lost, f"{key}:end", f"{what}, flush everything: page {lost and lost[0]} is not on disk" if lost else f"{what}, flush everything: fails", fn, what="flushes")
    return w.calls


CONFIGS = [
    {}, {"cache": "keeps"}, {"cache": "forgets"}, {"stealing": True}, {"stealing": True, "cache": "forgets"}, {"stealing": True, "batch": 2}, {"batch": 2}, {"batch": 1, "cache": "keeps"},
    {"threshold": 2}, {"threshold": 1}, {"room": 2}, {"room": 1}, {"room": 0}, {"room": 2, "cache": "forgets", "stealing": True, "batch": 3}, {"late": True},
    {"policy": "Never"}, {"policy": "PerWrite"}, {"policy": "Periodic"}, {"policy": "Periodic", "late": True}, {"level": "None"}, {"level": "Buffer"}, {"level": "Durable"},
    {"level": "Durable", "wal": False}, {"policy": "Never", "level": "Durable", "room": 2}, {"policy": "Never", "threshold": 2, "level": "None"},
]
FAULTY = [CONFIGS[i] for i in (0, 2, 3, 5, 8, 10, 12, 13, 21, 23)]


def buffered(c):
    """F04: what was written is what is read; a flush makes it durable; a failing device loses nothing acknowledged"""
    def one(c, x):
        cfg, sname = x
        total = play(c, cfg, SCRIPTS[sname], sname)
        # every single device failure, on the configurations that differ in what they do about one
        if c.tier == "thorough" or cfg in FAULTY:
            for fail in range(total):
                play(c, cfg, SCRIPTS[sname], sname, fail)
    c.parallel(itertools.product(CONFIGS, SCRIPTS), one)
    c.floor("requests", 3000)
    c.floor("failures", 300)
    c.floor("flushes", 500)
    c.floor("reads answered", 1500)


class Pool:
    """the real constructor, scheduler and workers over scripted channels and a scripted engine"""

    def __init__(self, c, threads, fail=None):
        self.c, self.fail, self.calls = c, fail, 0
        self.queues, self.spawned, self.answers, self.order, self.failed = [], [], {}, [], False
        self.s = s = Session(c, intercept=self.icept)
        cfg = c.obj(CFG, "cfg", io_threads=I(threads), work_stealing_enabled=TRUE, direct_io=FALSE)
        k, v = s.call(c.P.get(ADM + "::new"), mk("s", "db"), mk("s", "log"), cfg)
        if k != "return" or v.a[1] != "Ok":
            raise AnchorError("the disk manager cannot be made")
        self.adm = v.a[2][0][1]
        self.sched = dict(self.adm.a[2])["scheduler"]

    def device(self, what):
        self.calls += 1
        self.order.append(what)
        if self.fail is not None and self.calls - 1 == self.fail:
            self.failed = True
            return err(mk("ioerr", what))
        return None

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if n == "open_direct_io":
            return [(st, ok(mk("file")))]
        if n == "from_std":
            return [(st, mk("file"))]
        if p.startswith(ENG + "::"):
            if n in ("with_config", "new"):
                return [(st, ok(mk("engine")) if n == "with_config" else mk("engine"))]
            if n == "start":
                return [(st, UNIT)]
            if n == "write_page":
                g, x = deep(it, st, args[1]).a[0], deep(it, st, args[2])
                return [(st, mk("ready", self.device(f"write {name(x)} to page {g}") or ok(UNIT)))]
            if n == "read_page":
                g = deep(it, st, args[1]).a[0]
                return [(st, mk("ready", self.device(f"read page {g}") or ok(page(f"P{g}"))))]
            if n == "sync":
                return [(st, mk("ready", self.device("sync") or ok(UNIT)))]
        if n == "new" and (p.startswith(CM + "::") or p.startswith(WM + "::") or "MetricsCollector" in p):
            return [(st, sym(p))]
        if n == "channel" and "mpsc" in p:
            self.queues.append([])
            q = len(self.queues) - 1
            return [(st, tup(mk("qtx", q), mk("qrx", q)))]
        if n in ("send", "try_send") and args and deep(it, st, args[0]).k == "qtx":
            self.queues[deep(it, st, args[0]).a[0]].append(args[1])
            return [(st, mk("ready", ok(UNIT)) if n == "send" else ok(UNIT))]
        if n in ("recv", "try_recv") and args and deep(it, st, args[0]).k == "qrx":
            q = self.queues[deep(it, st, args[0]).a[0]]
            if n == "recv":
                return [(st, mk("ready", some(q.pop(0)) if q else NONE))]
            return [(st, ok(q.pop(0)) if q else err(mk("empty")))]
        if n == "send" and args and deep(it, st, args[0]).k == "cb":
            self.answers.setdefault(deep(it, st, args[0]).a[0], []).append(args[1])
            return [(st, ok(UNIT))]
        if n == "spawn":
            self.spawned.append(args[0])
            return [(st, mk("joinhandle", len(self.spawned)))]
        return None


KINDS = {
    "Read": ((I(3),), ["read page 3"], ["P3"]),
    "Write": ((I(4), page("W")), ["write W to page 4"], []),
    "BatchRead": ((L(I(5), I(6)),), ["read page 5", "read page 6"], ["P5", "P6"]),
    "BatchWrite": ((L(tup(I(7), page("X")), tup(I(8), page("Y"))),), ["write X to page 7", "write Y to page 8"], []),
    "Prefetch": ((L(I(9), I(10)),), ["read page 9", "read page 10"], ["P9", "P10"]),
    "Flush": ((), ["sync"], []),
    "Sync": ((), ["sync"], []),
}


def runs(v):
    """the pages a byte string is made of"""
    if name(v) is not None:
        return [name(v)]
    xs = elems(v)
    if xs is None:
        return None
    out = []
    for i in range(0, len(xs), PAGE):
        ch = xs[i:i + PAGE]
        out.append(ch[0].a[0] if len(ch) == PAGE and len(set(ch)) == 1 and ch[0].k == "b" else "?")
    return out


def scheduled(c):
    """F05: whatever queue a request lands on, a worker carries it out, once, and its caller is told how it went"""
    V_ = c.variants(AD + "scheduler::IOTaskType")
    c.require(set(V_) == set(KINDS), "kinds", f"the kinds of request are {V_}", c.P.get(SCH + "::submit_task"), what="kinds")
    todo = [(t, ks) for t in (1, 2, 3) for ks in itertools.product(KINDS, repeat=t if c.tier == "thorough" else 1)]
    todo += [(t, ks) for t in (1, 2, 3) for ks in itertools.permutations(KINDS, 4)][::1 if c.tier == "thorough" else 7]

    def one(c, x):
        threads, ks = x
        total = None
        fail = None
        while True:
            w = Pool(c, threads, fail)
            sub = c.P.get(SCH + "::submit_task")
            tids = []
            for i, k in enumerate(ks):
                a = KINDS[k][0]
                tt = adt(AD + "scheduler::IOTaskType", k, tuple((str(j), y) for j, y in enumerate(a)))
                t = c.obj(TASK, f"t{i}", task_type=tt, priority=unit(CFG.rpartition("::")[0] + "::IOPriority", "Normal"), completion_callback=some(mk("cb", i)))
                kk, v = w.s.call(sub, w.sched, t)
                ok_ = kk == "return" and v.k == "adt" and v.a[1] == "Ok"
                c.require(ok_, f"{threads}:{ks}:{fail}:{i}:submit", f"{threads} workers: request {i} ({k}) cannot be submitted", sub, what="requests")
            live = [q for q in w.spawned]
            for b in live:
                while b.k == "ref":
                    b = w.s.load(b)
                w.s.call(c.P.fn[b.a[1]], b, mk("cx"))
            fn = c.P.get(ADM + "::new")
            left = sum(map(len, w.queues))
            what = f"{threads} workers given {', '.join(ks)}" + (f", device call {fail} fails" if fail is not None else "")
            c.require(not left, f"{threads}:{ks}:{fail}:left", f"{what}: {left} requests stay in the queues although every worker waits for more", fn, what="requests")
            done = 0
            for i, k in enumerate(ks):
                got = w.answers.get(i, [])
                if not c.require(len(got) == 1 or left, f"{threads}:{ks}:{fail}:{i}:once", f"{what}: the caller of request {i} ({k}) is answered {len(got)} times", fn, what="answers") or not got:
                    continue
                _, acts, pages = KINDS[k]
                bad = got[0].a[1] == "Err"
                why = got[0].a[2][0][1] if bad else None
                while why is not None and why.k == "q":
                    why = why.a[0]
                failed = w.failed and why is not None and why.k == "ioerr"
                if bad:
                    c.require(failed and why.a[0] in acts, f"{threads}:{ks}:{fail}:{i}:err", f"{what}: the caller of request {i} ({k}) is told of a failure that is not its own ({why})", fn, what="answers")
                else:
                    r = runs(got[0].a[2][0][1])
                    c.require(r == pages, f"{threads}:{ks}:{fail}:{i}:ok", f"{what}: the caller of request {i} ({k}) is answered {r} instead of {pages}", fn, what="answers")
            errs = [i for i in w.answers if any(g.a[1] == "Err" for g in w.answers[i])]
            c.require(left or len(errs) == int(w.failed), f"{threads}:{ks}:{fail}:told", f"{what}: {len(errs)} callers are told of the failure", fn, what="answers")
            if not w.failed and not left:
                want = sorted(a for k in ks for a in KINDS[k][1])
                c.require(sorted(w.order) == want, f"{threads}:{ks}:{fail}:acts", f"{what}: the device sees {w.order}", fn, what="requests")
            if fail is None:
                total, fail = w.calls, -1
            fail += 1
            if fail >= total:
                break
    c.parallel(todo, one)

    # the requests that make use of the scheduler, from their callers' side
    def ask(c, x):
        cfg, sname = x
        for fail in [None, *range(play(c, cfg, SCRIPTS[sname], sname))]:
            play(c, cfg, SCRIPTS[sname], sname, fail)
    c.parallel(itertools.product([CONFIGS[3], CONFIGS[5]], ("several", "batches", "forced", "mixed")), ask)
    c.floor("answers", 200)
