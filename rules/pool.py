"""The buffer pool: pages held, evicted, written back and read again; the replacement policy."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last, Session
from prog import AnchorError
from rules.txn import lockcell, atomic

BPM = "buffer::buffer_pool_manager_async::BufferPoolManager"
LRU = "buffer::lru_k_replacer::LRUKReplacer"
PG = "storage::page::page_guard::PageGuard"
PAGES = "storage::page::page_types::"
HEAD = "storage::page::page_impl::BasicPage"
OTHER = PAGES + "table_page::TablePage"
DISK = "storage::disk::async_disk::manager::AsyncDiskManager"
ACC = "buffer::lru_k_replacer::AccessType"


class Fns:
    def __init__(self, c):
        g = lambda n: c.P.get(f"{BPM}::{n}")
        for n in ("new_page", "fetch_page", "load_pages_batch", "flush_page_async", "flush_all_pages_durable", "flush_dirty_pages_batch_async", "delete_page", "new_with_cache_config"):
            setattr(self, n, g(n))
        one = lambda n: [f for f in c.P.fn.values() if f["kind"] == "fn" and f["p"].startswith(PG + "::") and last(f["p"]) == n and f.get("self") == PG + "<P>"]
        self.write, self.read = [(one(n) or [None])[0] for n in ("write", "read")]
        self.drop = c.P.fn.get(c.P.drop_of.get(PG))
        if not (self.write and self.read and self.drop):
            raise AnchorError("page guards have no read, write or drop")
        t = "storage::page::page_impl::PageTrait"
        self.set = c.P.method(t, HEAD, "set_data")
        self.get = c.P.method(t, HEAD, "get_data")
        self.rnew = c.P.get(LRU + "::new")


class Pool:
    """a pool of a few frames over a scripted disk, next to what every page should hold"""

    def __init__(self, c, F, frames=2, cache=True):
        self.c, self.F, self.frames = c, F, frames
        self.s = Session(c, intercept=self.icept, inline_drop=lambda u: True)
        self.disk, self.fail, self.clock, self.hist = {}, None, 0, []
        self.during = None
        self.val, self.held, self.broken = {}, [], set()
        k, r = self.s.call(F.rnew, I(frames), I(2))
        k, v = self.s.call(F.new_with_cache_config, I(frames), sym("disk"), self.s.alloc(lockcell(r)), I(int(cache)), FALSE)
        if k != "return" or v.k != "adt" or v.a[1] != "Ok":
            raise AnchorError("the buffer pool cannot be made")
        self.me = self.s.alloc(v.a[2][0][1])
        self.arc = self.s.alloc(self.me)

    def fork(self):
        t = object.__new__(Pool)
        t.__dict__.update(self.__dict__)
        t.disk, t.val, t.hist, t.broken = dict(self.disk), dict(self.val), list(self.hist), set(self.broken)
        t.held = list(self.held)
        t.s = self.s.fork()
        t.s.kw = {**self.s.kw, "intercept": t.icept}
        return t

    # ---- the device
    def icept(self, it, st, p, r, u, args, line):
        q = r or p
        n = last(p)
        if q.startswith(DISK + "::"):
            deref = lambda v: it.deref(st, v) if v.k == "ref" else v
            bad, no = False, [(st, mk("ready", err(sym("io"))))]
            if self.during and self.at == "read" and n in ("read_page", "read_pages_batch"):
                self.midway(st)
            if self.fail is not None and n in ("read_page", "write_page", "read_pages_batch", "write_pages_batch", "flush", "sync"):
                bad = self.fail == 0
                self.fail -= 1
            no = [(st, mk("ready", err(sym("io"))))]
            if n == "read_page":
                b = self.disk.get(args[1].a[0])
                return no if bad or b is None else [(st, mk("ready", ok(L(*b))))]
            if n == "write_page":
                if not bad:
                    self.disk[args[1].a[0]] = elems(deref(args[2]))
                if self.during and self.at == "write":
                    self.midway(st)
                return no if bad else [(st, mk("ready", ok(UNIT)))]
            if n == "read_pages_batch":
                ps = [x.a[0] for x in elems(deref(args[1]))]
                if bad or any(x not in self.disk for x in ps):
                    return no
                return [(st, mk("ready", ok(L(*[L(*self.disk[x]) for x in ps]))))]
            if n == "write_pages_batch":
                if not bad:
                    for x in elems(deref(args[1])):
                        self.disk[it.proj(x, (".", "0")).a[0]] = elems(deref(it.proj(x, (".", "1"))))
                if self.during and self.at == "write":
                    self.midway(st)
                return no if bad else [(st, mk("ready", ok(UNIT)))]
            if n in ("flush", "sync", "flush_writes_with_durability", "force_flush_all"):
                return no if bad else [(st, mk("ready", ok(UNIT)))]
            return None
        if n == "now" and "time" in p:
            self.clock += 1
            return [(st, mk("clock", self.clock))]
        if n in ("duration_since", "elapsed") and "time" in p:
            v = args[0]
            while v.k == "ref":
                v = it.deref(st, v)
            return [(st, ok(v) if "SystemTime" in p else v)]
        if n in ("as_micros", "as_nanos", "as_millis") and "time" in p:
            v = args[0]
            while v.k == "ref":
                v = it.deref(st, v)
            if v.k == "clock":
                return [(st, I(v.a[0] * 1000))]
        return None

    def midway(self, st):
        """what other threads do to the pool while the device is busy"""
        f, self.during = self.during, None
        keep = self.s.mem, self.s.facts, self.s.o, self.fail
        self.s.mem = {k: v for k, v in st.mem.items() if k[0] == "H"}
        self.s.facts, self.fail = dict(st.facts), None
        f(self)
        st.mem.update(self.s.mem)
        st.facts.clear()
        st.facts.update(self.s.facts)
        self.s.mem, self.s.facts, self.s.o, self.fail = keep

    # ---- operations
    def call(self, f, *a, ty=HEAD, **kw):
        if f["gn"]:
            kw["sub"] = dict(zip(f["gn"], (ty,)))
        return self.s.call(f, *a, **kw)

    def hold(self, g, pid):
        self.held.append((self.s.alloc(g), pid))
        return len(self.held) - 1

    def pins(self):
        return {p for g, p in self.held if g}

    def new(self):
        k, v = self.call(self.F.new_page, self.arc)
        self.hist.append("new page")
        if k != "return" or v.k != "adt" or v.a[1] != "Some":
            return k if k != "return" else None
        g = v.a[2][0][1]
        pid = self.s.o.interp.proj(g, (".", "page_id"))
        if pid.k != "i" or pid.a[0] in self.val:
            return "an id already in use"
        pid = pid.a[0]
        i = self.hold(g, pid)
        self.val[pid] = self.look(i)
        return i

    def fetch(self, pid, ty=HEAD):
        k, v = self.call(self.F.fetch_page, self.arc, I(pid), ty=ty)
        self.hist.append(f"fetch {pid}" + ("" if ty == HEAD else " as another type"))
        if k != "return" or v.k != "adt" or v.a[1] != "Some":
            return k if k != "return" else None
        return self.hold(v.a[2][0][1], pid)

    def look(self, i):
        """what the guard shows"""
        k, v = self.call(self.F.read, self.held[i][0])
        if k != "return":
            return k
        k, v = self.s.call(self.F.get, v)
        xs = elems(self.s.load(v)) if k == "return" else None
        if xs is None or len(xs) != 4096:
            return "nothing"
        xs = [x.a[0] if x.k == "i" else show(x) for x in (xs[8], xs[9], xs[4095])]
        return xs[0] if xs[2] == 0 and xs[1] == (xs[0] and 99) else xs

    def put(self, i, x):
        k, v = self.call(self.F.write, self.held[i][0])
        if k == "return":
            k, v = self.s.call(self.F.set, v, I(8), self.s.alloc(L(I(x), I(99))))
        self.hist.append(f"write {self.held[i][1]}")
        self.val[self.held[i][1]] = x
        return k

    def release(self, i):
        g, pid = self.held[i]
        self.held[i] = (None, pid)
        k, v = self.call(self.F.drop, g)
        self.hist.append(f"release {pid}")
        return k

    def ok(self, f, *a, name="", ty=HEAD):
        k, v = self.call(f, *a, ty=ty)
        self.hist.append(name)
        if k != "return":
            return k
        return v.a[1] == "Ok" if v.k == "adt" else show(v)

    def batch(self, pids):
        k, v = self.call(self.F.load_pages_batch, self.arc, L(*[I(p) for p in pids]))
        self.hist.append(f"load {pids}")
        if k != "return":
            return k
        out = []
        for x, p in zip(elems(v), pids):
            if x.a[1] == "None":
                out.append(None)
            else:
                g = x.a[2][0][1]
                got = self.s.o.interp.proj(g, (".", "page_id")).a[0]
                out.append((got, self.hold(g, got)))
        return out

    # ---- what must hold now
    def room(self, extra=()):
        """a frame can be had for another page"""
        return len(self.pins() | set(extra)) < self.frames

    def problems(self):
        bad = []
        for i, (g, pid) in enumerate(self.held):
            if g is not None:
                x = self.look(i)
                if x != self.val[pid]:
                    bad.append(f"page {pid}, in use, shows {x} instead of {self.val[pid]}")
        return bad

    def final(self):
        """with a working device and no page in use, every page shows what it should"""
        self.fail, self.during = None, None
        bad = self.problems()
        for i, (g, pid) in enumerate(self.held):
            if g is not None:
                if self.release(i) != "return":
                    bad.append(f"releasing page {pid} fails")
        todo = sorted(set(self.val) - self.broken)
        while todo and not bad:
            got = [self.fetch(p) for p in todo[:self.frames]]
            for p, i in zip(todo, got):
                if not isinstance(i, int):
                    bad.append(f"page {p} cannot be read any more ({i})")
            bad += self.problems()
            for i in got:
                if isinstance(i, int):
                    self.release(i)
            todo = todo[self.frames:]
        return bad

    def resident(self):
        return sorted(k.a[0] for k, _ in pairs(self.walk(self.me, ("page_table", "data"))))

    def dirt(self, p):
        return self.disk.get(p) is None or (self.disk[p][8].a[0] if self.disk[p][8].k == "i" else None) != self.val[p]

    def key(self):
        """the state up to names and times"""
        m = self.mem(self.me)
        pick = lambda v, *path: self.walk(v, path)
        table = tuple(sorted((k.a[0], x.a[0]) for k, x in pairs(pick(m, "page_table", "data"))))
        free = tuple(x.a[0] for x in elems(pick(m, "free_list", "data")))
        rep = pick(m, "replacer", "data")
        times, fs = set(), []
        for k, x in pairs(pick(rep, "frame_store", "data")):
            h = [t.a[0] for t in elems(pick(x, "access_history"))]
            times |= set(h)
            fs.append((k.a[0], h, pick(x, "is_evictable").a[0]))
        rank = {t: i for i, t in enumerate(sorted(times))}
        fs = tuple(sorted((k, tuple(rank[t] for t in h), e) for k, h, e in fs))
        ev = tuple(x.a[0] for x in elems(pick(rep, "evictable_frames", "data")))
        pages = []
        for x in elems(pick(m, "pages", "data")):
            if x.a[1] == "None":
                pages.append(None)
            else:
                q = pick(x.a[2][0][1], "data")
                pages.append(tuple(show(self.walk(q, (n,))) for n in ("page_id", "pin_count", "is_dirty")))
        d = tuple(sorted((p, b[8].a[0]) for p, b in self.disk.items()))
        held = tuple(sorted((p, self.walk(self.mem(g), ("dirty", "v")).a[0]) for g, p in self.held if g))
        return table, free, fs, ev, tuple(pages), d, held, tuple(sorted(self.val.items())), tuple(sorted(self.broken))

    def mem(self, v):
        it = self.s.o.interp
        st = self.s.o.state.copy()
        st.mem.update(self.s.mem)
        while v.k == "ref":
            v = it.deref(st, v)
        return v

    def walk(self, v, path):
        v = self.mem(v)
        for n in path:
            v = self.mem(self.s.o.interp.proj(v, (".", n)))
        return v


SRC = "src/buffer/buffer_pool_manager_async.rs"


class Explorer:
    """every short history of requests to a small pool, with the device failing or other threads coming in once"""

    def __init__(self, c, frames, n, depth, kinds, mids, other, deletes, batches):
        self.c, self.F, self.frames, self.n, self.depth, self.kinds = c, Fns(c), frames, n, depth, kinds
        self.mids, self.other, self.deletes, self.batches = mids, other, deletes, batches
        self.seen, self.bad = {}, set()

    def start(self, kind):
        p = Pool(self.c, self.F, self.frames)
        for i in range(self.n):
            g = p.new()
            if not isinstance(g, int):
                raise AnchorError(f"page {i} cannot be made in an empty pool ({g})")
            if kind != "blank":
                self.bump(p, g)
            p.release(g)
        if kind == "flushed":
            p.ok(self.F.flush_all_pages_durable, p.me, name="flush all")
        p.hist = [f"{self.n} pages made" + ("" if kind == "blank" else " and written") + (", all flushed" if kind == "flushed" else "")]
        return p

    def bump(self, p, i):
        pid = p.held[i][1]
        r = p.put(i, pid * 10 + 1 + p.val[pid] % 10 % 3)
        return None if r == "return" else f"page {pid} cannot be written: {r}"

    def ops(self, p, left):
        """(name, f(pool, disturbed) -> complaint or None, pages another thread may touch meanwhile or None)"""
        live = [i for i, (g, _) in enumerate(p.held) if g]
        out = []

        def fetch(q):
            def f(p, bad):
                room = q in p.pins() or p.room()
                i = p.fetch(q)
                if isinstance(i, int):
                    return None if room or bad else f"page {q} is put into a frame in use"
                return None if q in p.broken or (bad or not room) and i is None else f"page {q} cannot be fetched although a frame is free ({i})"
            return f

        def fetch2(q):
            def f(p, bad):
                i = p.fetch(q, OTHER)
                if i is not None:
                    p.held = p.held[:i] if isinstance(i, int) else p.held
                    return f"page {q} is handed out as another type ({i})"
            return f

        def release(i):
            return lambda p, bad: None if p.release(i) == "return" else "a page cannot be released"

        def write(i):
            return lambda p, bad: self.bump(p, i)

        def new(p, bad):
            room = p.room()
            i = p.new()
            if isinstance(i, int):
                return None if room else "a new page is put into a frame in use"
            return None if (bad or not room) and i is None else f"no new page although a frame is free ({i})"

        def flush(q):
            def f(p, bad):
                want = p.val[q]
                r = p.ok(p.F.flush_page_async, p.me, I(q), name=f"flush {q}")
                if r is True and (p.disk.get(q) is None or p.disk[q][8] not in (I(want), I(p.val[q]))):
                    return f"page {q} is reported flushed but the device has other contents"
                return None if r in (True, False) else f"flush: {r}"
            return f

        def flushall(p, bad):
            r = p.ok(p.F.flush_all_pages_durable, p.me, name="flush all")
            late = [q for q in p.val if p.dirt(q) and q not in p.broken]
            if r is True and late and not p.mid:
                return f"all pages are reported flushed but page {late[0]} is not on the device"
            return None if r is True or bad and r is False else f"flush all: {r}"

        def flushbatch(p, bad):
            r = p.ok(p.F.flush_dirty_pages_batch_async, p.me, I(10), name="flush batch")
            return None if r is True or bad and r is False else f"flush batch: {r}"

        def batch(qs):
            def f(p, bad):
                pins = p.pins()
                r = p.batch(qs)
                if isinstance(r, str):
                    return f"load: {r}"
                if len(r) != len(qs):
                    return f"{len(qs)} pages are asked for and {len(r)} answers come back"
                for q, x in zip(qs, r):
                    if x is not None and x[0] != q:
                        return f"page {x[0]} is given for page {q}"
                if not bad and len(pins | set(qs)) <= p.frames and None in r and not p.broken:
                    return f"page {qs[r.index(None)]} is not loaded although frames are free"
                if len(p.pins()) > p.frames:
                    return "more pages are in use than there are frames"
            return f

        def delete(q):
            def f(p, bad):
                used, here = q in p.pins(), q in p.resident()
                r = p.ok(p.F.delete_page, p.me, I(q), name=f"delete {q}")
                if r is True:
                    p.broken.add(q)
                    return "a page in use is deleted" if used else None
                return None if r is False and (used or not here) else f"page {q}, not in use, cannot be deleted ({r})"
            return f

        for q in sorted(p.val):
            if len(live) < 3 and q not in p.broken:
                out.append((f"fetch {q}", fetch(q), [q, (q + 1) % self.n]))
            if self.mids and q not in p.broken:
                out.append((f"flush {q}", flush(q), [q]))
            if self.other:
                out.append((f"other {q}", fetch2(q), []))
            if self.deletes and not p.broken:
                out.append((f"delete {q}", delete(q), None))
        if len(p.val) == self.n:
            out.append(("new", new, []))
        for i in live:
            if left > 1 or not self.mids:
                out.append((f"release {i}", release(i), None))
            if left > 1 and self.mids:
                out.append((f"write {i}", write(i), None))
        if self.mids:
            out.append(("flush all", flushall, p.resident()[:2]))
            out.append(("flush batch", flushbatch, p.resident()[:2]))
        if len(live) < 2 and not p.broken:
            for qs in self.batches:
                out.append((f"load {qs}", batch(qs), [qs[0], (qs[-1] + 1) % self.n]))
        return out

    def step(self, p, name, f, fault, mid):
        q = p.fork()
        q.fail, q.during, q.mid, q.hit, q.at = fault, None, mid, False, "write" if name.startswith("flush") else "read"
        if mid is not None:
            def during(x):
                i = x.fetch(mid[0])
                if isinstance(i, int):
                    self.bump(x, i)
                    if not mid[1]:
                        x.release(i)
                q.hit = True
            q.during = during
        why = f(q, fault is not None or mid is not None)
        used = q.hit if mid is not None else fault is None or q.fail < 0
        q.fail, q.during = None, None
        return q, why, used

    def item(self, c, it):
        self.c = c
        kind, first = it
        p = self.start(kind)
        self.go(p, self.depth, 1, [], first, p.hist[0])

    def go(self, p, left, faults, path, first, begin):
        c = self.c
        for name, f, mids in self.ops(p, left):
            if first is not None and name != first:
                continue
            tries = [(None, None)]
            if mids is not None and faults:
                tries += [(k, None) for k in range(2)]
                if self.mids:
                    tries += [(None, (m, k)) for m in mids if m in p.val and m not in p.broken for k in (0, 1)]
            for fault, mid in tries:
                q, why, used = self.step(p, name, f, fault, mid)
                if not used:
                    continue
                c.count("requests")
                c.obligations += 1
                what = name.split(" ")[0] + ("" if fault is None else ", device failing") + ("" if mid is None else ", page used meanwhile")
                h = path + [name + ("" if fault is None else f" (device fails at {fault})")
                            + ("" if mid is None else f" (page {mid[0]} written{' and kept' * mid[1]} meanwhile)")]
                why = [why] if why else q.problems()
                k, nf = q.key(), faults - (fault is not None or mid is not None)
                if why or self.seen.get((k, nf), -1) < left - 1:
                    self.seen[(k, nf)] = left - 1
                    c.count("histories")
                    if fault is not None:
                        c.count("device failures")
                    if mid is not None:
                        c.count("interruptions")
                    z = why or q.fork().final()
                    z = [x for x in z if not self.kinds or self.kinds(x)]
                    if z:
                        if (what, z[0]) not in self.bad:
                            self.bad.add((what, z[0]))
                            c.violation(f"pool:{what}:{z[0]}", f"{z[0]} — after: " + "; ".join([begin] + h), SRC, 0)
                    elif left > 1:
                        self.go(q, left - 1, nf, h, None, begin)

    def run(self, starts):
        items = []
        for kind in starts:
            p = self.start(kind)
            items += [(kind, x[0]) for x in self.ops(p, self.depth)]
        self.c.parallel(items, lambda c, it: self.item(c, it))


def contents(c):
    """the pool shows every page as it was last written, through evictions, flushes, failures and use meanwhile"""
    Explorer(c, 2, 3, 3 if c.tier == "quick" else 4, None, True, False, False, ((0, 1), (1, 0), (0, 0), (0, 1, 2))).run(("blank", "written", "flushed"))
    c.floor("histories", 5000)
    c.floor("device failures", 500)
    c.floor("interruptions", 1000)


def frames(c):
    """frames: pages in use stay, free frames can be used, nothing is handed out as another type"""
    Explorer(c, 2, 3, 4 if c.tier == "quick" else 5, None, False, True, True, ((1, 0), (0, 0), (0, 1, 2))).run(("written", "flushed"))
    c.floor("histories", 5000)
    c.floor("device failures", 500)


class Replacer:
    """the real replacement policy next to the documented one"""

    def __init__(self, c, fn, frames, k):
        self.c, self.fn, self.k, self.clock = c, fn, k, 0
        self.model = {}
        self.s = Session(c, intercept=self.icept)
        kind, v = self.s.call(fn["new"], I(frames), I(k))
        self.me = self.s.alloc(v)

    def fork(self):
        t = object.__new__(Replacer)
        t.__dict__.update(self.__dict__)
        t.model = {f: (list(h), e) for f, (h, e) in self.model.items()}
        t.s = self.s.fork()
        t.s.kw = {**self.s.kw, "intercept": t.icept}
        return t

    icept = Pool.icept
    fail = None

    def do(self, op, f=None, flag=None):
        """complaint or None"""
        m = self.model
        if op == "access":
            k, v = self.s.call(self.fn["record_access"], self.me, I(f), adt(ACC, "Unknown", ()))
            h, e = m.get(f, ([], False))
            m[f] = ((h + [self.clock])[-self.k:], e)
            return None if k == "return" else k
        if op == "pin":
            k, v = self.s.call(self.fn["set_evictable"], self.me, I(f), TRUE if flag else FALSE)
            want = f in m and m[f][1] != flag
            if f in m:
                m[f] = (m[f][0], flag)
            return None if k == "return" and (v == TRUE) == want else f"marking frame {f} answers {show(v) if k == 'return' else k}"
        if op == "remove":
            k, v = self.s.call(self.fn["remove"], self.me, I(f))
            if f in m and m[f][1]:
                del m[f]
            return None if k == "return" else k
        can = {f: h for f, (h, e) in m.items() if e}
        few = {f: h for f, h in can.items() if len(h) < self.k}
        want = None
        if few:
            want = min(few, key=lambda f: (len(few[f]), few[f][0]))
        elif can:
            want = min(can, key=lambda f: can[f][0])
        k, v = self.s.call(self.fn["evict"], self.me)
        got = k if k != "return" else v.a[2][0][1].a[0] if v.a[1] == "Some" else None
        if want is not None:
            del m[want]
        if got != want:
            return f"frame {got} is evicted instead of {want}"
        k, v = self.s.call(self.fn["total_evictable_frames"], self.me)
        n = sum(e for _, e in m.values())
        return None if v == I(n) else f"{show(v)} evictable frames are counted instead of {n}"

    def key(self):
        ts = sorted({t for h, _ in self.model.values() for t in h})
        m = tuple(sorted((f, tuple(ts.index(t) for t in h), e) for f, (h, e) in self.model.items()))
        w = lambda v, *p: Pool.walk(self, v, p)
        ev = tuple(x.a[0] for x in elems(w(self.me, "evictable_frames", "data")))
        fs = []
        for k, x in pairs(w(self.me, "frame_store", "data")):
            fs.append((k.a[0], tuple(ts.index(t.a[0] // 1000) if t.a[0] // 1000 in ts else "old" for t in elems(w(x, "access_history"))), w(x, "is_evictable").a[0]))
        return m, ev, tuple(sorted(fs))

    mem = Pool.mem
    walk = Pool.walk


def policy(c):
    """the frame given up is the one the LRU-K policy names"""
    fn = {n: c.P.get(f"{LRU}::{n}") for n in ("new", "record_access", "set_evictable", "remove", "evict", "total_evictable_frames")}
    frames = (0, 1, 2)
    alpha = [("access", f, None) for f in frames] + [("pin", f, b) for f in frames for b in (True, False)] + [("remove", f, None) for f in frames] + [("evict", None, None)]
    name = lambda o: {"access": f"access {o[1]}", "pin": f"frame {o[1]} {'released' if o[2] else 'pinned'}", "remove": f"remove {o[1]}", "evict": "evict"}[o[0]]
    depth = 4 if c.tier == "quick" else 6

    def one(c, it):
        k, pre = it
        seen, bad = {}, set()

        def go(r, left, path):
            for o in alpha:
                q = r.fork()
                why = q.do(*o)
                c.count("requests")
                c.obligations += 1
                if o[0] == "evict":
                    c.count("evictions")
                if why:
                    if why not in bad:
                        c.violation(f"policy:{k}:{path}{o}", f"with K={k}, after {'; '.join(map(name, path + [o]))}: {why}", "src/buffer/lru_k_replacer.rs", 0)
                        bad.add(why)
                    continue
                if left > 1:
                    key = q.key()
                    if seen.get(key, 0) < left - 1:
                        seen[key] = left - 1
                        go(q, left - 1, path + [o])
        r = Replacer(c, fn, len(frames), k)
        for o in pre:
            why = r.do(*o)
            if why:
                c.violation(f"policy:{k}:{pre}", f"with K={k}, after {'; '.join(map(name, pre))}: {why}", "src/buffer/lru_k_replacer.rs", 0)
                return
        go(r, depth, list(pre))

    items = []
    for k in (1, 2, 3):
        for seq in itertools.product(frames, repeat=4):
            used = [f for i, f in enumerate(seq) if f not in seq[:i]]
            if used != sorted(used):
                continue
            pre = [("access", f, None) for f in seq]
            items.append((k, pre + [("pin", f, True) for f in used]))
            items.append((k, pre + [("pin", f, True) for f in used[::-1][:2]]))
    c.parallel(items, one)
    c.floor("evictions", 1000)


def types(c):
    """a page is handed out only as the type it was made with"""
    pt = "storage::page::page_impl::PageType"
    to, frm = c.P.get(pt + "::to_u8"), c.P.get(pt + "::from_u8")
    tag = {}
    for n in [v[0] for v in c.P.enum(pt)["variants"]]:
        os = c.explore(to, [adt(pt, n, ())], seq=True)
        v = os[0].value if len(os) == 1 else None
        c.require(v is not None and v.k == "i", f"types:{n}", f"the byte of page type {n} is not one value", to)
        if v is None or v.k != "i":
            continue
        c.count("page types")
        c.require(v.a[0] not in tag.values(), f"types:{n}:byte", f"page type {n} has the byte of another type", to)
        tag[n] = v.a[0]
    names = {b: n for n, b in tag.items()}
    for b in range(256):
        os = c.explore(frm, [I(b)], seq=True)
        v = os[0].value if len(os) == 1 else None
        want = names.get(b)
        got = None if v is None or v.a[1] == "None" else v.a[2][0][1].a[1]
        c.count("bytes")
        c.require(v is not None and got == want, f"types:{b}", f"the byte {b} is read as page type {got} instead of {want}", frm)
    impls = c.P.assoc.get(("storage::page::page_impl::PageTypeId", "TYPE_ID"), [])
    own = {}
    for f in impls:
        os = c.explore(f, [], seq=True)
        n = os[0].value.a[1] if len(os) == 1 and os[0].kind == "return" and os[0].value.k == "adt" else None
        c.require(n is not None and n not in own.values(), f"types:{f['self']}", f"{f['self']} has the page type of another page ({n})", f)
        own[f["self"]] = n
    plain = sorted(t for t in own if "<" not in t)
    F = Fns(c)

    def one(c, a):
        p = Pool(c, F, 2)

        def made():
            k, v = p.call(F.new_page, p.arc, ty=a)
            if k != "return" or v.a[1] != "Some":
                raise AnchorError(f"no new page of type {a}")
            return v.a[2][0][1]
        try:
            g = made()
        except AnchorError:
            c.count("types without a plain constructor")
            return
        p.s.call(F.drop, p.s.alloc(g))
        for where in ("in memory", "on the device"):
            if where == "on the device":
                for _ in range(2):
                    p.s.call(F.drop, p.s.alloc(made()))
                if 0 in p.resident():
                    raise AnchorError("a page stays in memory although two others were made")
            for b in plain:
                for how in ("fetch", "batch"):
                    q = p.fork()
                    if how == "fetch":
                        k, v = q.call(F.fetch_page, q.arc, I(0), ty=b)
                    else:
                        k, v = q.call(F.load_pages_batch, q.arc, L(I(0)), ty=b)
                        v = elems(v)[0] if k == "return" else v
                    got = k == "return" and v.a[1] == "Some"
                    c.count("requests")
                    sh = lambda t: last(t)
                    if k != "return":
                        c.violation(f"types:{a}:{b}:{how}:{where}", f"asking for a {sh(a)} {where} as a {sh(b)} ({how}) ends in {k}", SRC, 0)
                    elif got != (a == b):
                        c.violation(f"types:{a}:{b}:{how}:{where}", f"a {sh(a)} {where} is {'handed out as' if got else 'refused as'} a {sh(b)} ({how})", SRC, 0)
                    else:
                        c.obligations += 1
    c.parallel(plain, one)
    c.floor("requests", 100)
    c.floor("bytes", 256)
