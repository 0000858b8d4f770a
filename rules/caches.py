"""The cache policies and the tiers made of them."""
import itertools
from interp import *
from colls import L, M, elems, pairs, loc
from ctx import sym, unit, cell, last, Session
from prog import AnchorError

CA = "storage::disk::async_disk::cache::"
T = CA + "cache_traits::"
KEYS = (1, 2, 3, 4)


class Model:
    """the entries of a cache, and which of them the policy may drop next"""

    def __init__(self, kind, cap, k=2):
        self.kind, self.cap, self.k = kind, cap, k
        self.val, self.born, self.used, self.freq, self.hist, self.now = {}, {}, {}, {}, {}, 0

    def copy(self):
        m = Model(self.kind, self.cap, self.k)
        m.val, m.born, m.used, m.freq, m.hist, m.now = dict(self.val), dict(self.born), dict(self.used), dict(self.freq), dict(self.hist), self.now
        return m

    def victims(self):
        ks = list(self.val)
        if not ks:
            return set()
        if self.kind == "fifo":
            return {min(ks, key=self.born.get)}
        if self.kind == "lru":
            return {min(ks, key=self.used.get)}
        if self.kind in ("lfu", "heap_lfu"):
            m = min(self.freq[k] for k in ks)
            return {k for k in ks if self.freq[k] == m}
        few = [k for k in ks if len(self.hist[k]) < self.k]
        if few:
            m = min(len(self.hist[k]) for k in few)
            few = [k for k in few if len(self.hist[k]) == m]
            t = min(self.hist[k][0] for k in few)
            return {k for k in few if self.hist[k][0] == t}
        t = min(self.hist[k][-self.k] for k in ks)
        return {k for k in ks if self.hist[k][-self.k] == t}

    def touch(self, k, get):
        self.used[k] = self.now
        self.hist[k] = (self.hist.get(k, ()) + (self.now,))[-self.k:]
        if get:
            self.freq[k] += 1

    def put(self, k, v):
        if k not in self.val:
            self.born[k], self.freq[k], self.hist[k] = self.now, 1, ()
        self.val[k] = v
        self.touch(k, False)

    def drop(self, k):
        for d in (self.val, self.born, self.used, self.freq, self.hist):
            d.pop(k, None)

    def state(self):
        """what decides the future, up to the passage of time"""
        ts = sorted({t for h in self.hist.values() for t in h} | set(self.used.values()) | set(self.born.values()))
        r = {t: i for i, t in enumerate(ts)}
        return tuple(sorted((k, r[self.born[k]], r[self.used[k]], self.freq[k], tuple(r[t] for t in self.hist[k])) for k in self.val))


POLICIES = {
    "lru": ("lru::LRUCore", "new", "LRUCacheTrait", "pop_lru", "peek_lru"),
    "fifo": ("fifo::FIFOCache", "new", "FIFOCacheTrait", "pop_oldest", "peek_oldest"),
    "lfu": ("lfu::LFUCache", "new", "LFUCacheTrait", "pop_lfu", "peek_lfu"),
    "heap_lfu": ("heap_lfu::HeapLFUCache", "new", "LFUCacheTrait", "pop_lfu", "peek_lfu"),
    "lru_k": ("lru_k::LRUKCache", "with_k", "LRUKCacheTrait", "pop_lru_k", "peek_lru_k"),
}
WORD = {"lru": "least recently used", "fifo": "oldest", "lfu": "least frequently used", "heap_lfu": "least frequently used", "lru_k": "furthest in its K-th last use"}


def parts(a):
    for x in a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            yield from parts(x)


class Policy:
    """one of the real caches next to its model"""

    def __init__(self, c, kind, cap, k=2, tick=1):
        self.c, self.kind, self.tick = c, kind, tick
        ty, new, tr, self.popn, self.peekn = POLICIES[kind]
        self.ty, self.tr = CA + ty, T + tr
        self.m = Model(kind, cap, k)
        self.s = Session(c, intercept=self.icept)
        f = c.P.get(f"{self.ty}::<K, V>::{new}")
        kk, v = self.s.call(f, *([I(cap), I(k)] if kind == "lru_k" else [I(cap)]))
        if kk != "return":
            raise AnchorError(f"{f['p']} does not return")
        self.p = self.s.alloc(v)
        self.log, self.freed, self.twice = [], set(), False

    def fork(self):
        n = object.__new__(Policy)
        n.__dict__.update(self.__dict__)
        n.m, n.s, n.log = self.m.copy(), self.s.fork(), list(self.log)
        n.freed = set(self.freed)
        n.s.kw = {**self.s.kw, "intercept": n.icept}
        return n

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if n == "as_micros" or n == "current_time_in_micros":
            return [(st, I(1000 + self.m.now))]
        if n == "from_raw" and args[0].k == "ref":
            self.twice |= args[0].a[0] in self.freed
            self.freed.add(args[0].a[0])
            return [(st, args[0])]
        if n == "try_unwrap" and args[0].k == "ref":
            return [(st, ok(it.deref(st, args[0])))]
        if n == "now" and "Time" in p or n == "duration_since":
            return [(st, mk("dur", n) if n == "now" else ok(mk("dur", n)))]
        return None

    def fn(self, name):
        for t in (T + "CoreCache", T + "MutableCache", self.tr):
            if self.c.P.trait_impls.get((t, name)) and [f for f in self.c.P.trait_impls[t, name] if f["self"].split("<")[0] == self.ty]:
                return self.c.P.method(t, self.ty, name)
        raise AnchorError(f"{self.ty}::{name} not found")

    def has(self, name):
        try:
            return self.fn(name)
        except AnchorError:
            return None

    def plain(self, v):
        v = self.s.load(v)
        if v.k == "adt" and v.a[1] in ("Some", "None"):
            return None if v.a[1] == "None" else ("some", self.plain(v.a[2][0][1]))
        if v.k == "i":
            return v.a[0]
        if v.k == "adt" and v.a[0] == "tuple":
            return tuple(self.plain(x) for _, x in v.a[2])
        if v.k == "adt" and len(v.a[2]) == 1:
            return self.plain(v.a[2][0][1])
        return v

    def do(self, name, *args):
        k, v = self.s.call(self.fn(name), self.p, *args)
        return (k, self.plain(v)) if k == "return" else (k, None)

    def key(self, k):
        return self.s.alloc(I(k))

    def shuffle(self, r):
        """a hash map may answer its entries in any order"""
        if "BTreeMap" in str(self.c.P.adt.get(self.ty)) or self.p.k != "ref":
            return

        def go(v):
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if not isinstance(v, V):
                return v
            if v.k == "map" and len(v.a[0]) > 1:
                es, q, n = list(v.a[0]), r, []
                while es:
                    n.append(es.pop(q % len(es)))
                    q //= 3
                return mk("map", tuple(n))
            return mk(v.k, *go(v.a)) if v.k == "adt" else v
        self.s.mem[self.p.a[0]] = go(self.s.mem[self.p.a[0]])

    def step(self, op, k=None):
        """run the operation on both; True if they agree"""
        c, m = self.c, self.m
        m.now += self.tick
        self.log.append(f"{op} {k}" if k is not None else op)
        what = f"{self.kind} of capacity {m.cap}: " + ", ".join(self.log)
        fn = self.fn({"pop": self.popn, "peek": self.peekn}.get(op, op))
        key = f"{self.kind}:{m.cap}:{m.k}:{'/'.join(self.log)}"

        def req(okay, sub, msg, what_="operations"):
            return c.require(okay, f"{key}:{sub}", f"{what}: {msg}", fn, what=what_)
        if op == "insert":
            v = 100 + 10 * k + len(self.log)
            full = k not in m.val and len(m.val) >= m.cap
            vs = m.victims() if full else set()
            kk, r = self.do("insert", I(k), I(v))
            want = ("some", m.val[k]) if k in m.val else None
            if not req(kk == "return" and r == want, "ans", f"the last insert answers {r} instead of {want}"):
                return False
            if m.cap > 0:
                left = [x for x in KEYS if self.do("contains", self.key(x))[1] == 1]
                gone = set(m.val) - set(left)
                good = k in left and not set(left) - set(m.val) - {k} and (len(gone) == 1 and gone <= vs if full else not gone)
                if not req(good, "victim", f"leaves {left}" + (f" although {' or '.join(map(str, sorted(vs)))} is the {WORD[self.kind]}" if full else f" instead of {sorted(set(m.val) | {k})}"), "evictions" if full else "operations"):
                    return False
                for g in gone:
                    m.drop(g)
                m.put(k, v)
        elif op == "get":
            kk, r = self.do("get", self.key(k))
            want = ("some", m.val[k]) if k in m.val else None
            if not req(kk == "return" and r == want, "ans", f"the last get answers {r} instead of {want}"):
                return False
            if k in m.val:
                m.touch(k, True)
        elif op == "touch":
            kk, r = self.do("touch", self.key(k))
            if not req(kk == "return" and r == int(k in m.val), "ans", f"the last touch answers {r}"):
                return False
            if k in m.val:
                m.touch(k, False)
        elif op in ("increment_frequency", "reset_frequency"):
            kk, r = self.do(op, self.key(k))
            up = op[0] == "i"
            want = ("some", m.freq[k] + up) if k in m.val else None
            if not req(kk == "return" and r == want, "ans", f"answers {r} instead of {want}"):
                return False
            if k in m.val:
                m.freq[k] = m.freq[k] + 1 if up else 1
        elif op == "remove":
            kk, r = self.do("remove", self.key(k))
            want = ("some", m.val[k]) if k in m.val else None
            if not req(kk == "return" and r == want, "ans", f"the last remove answers {r} instead of {want}"):
                return False
            m.drop(k)
        elif op == "clear":
            kk, r = self.do("clear")
            if not req(kk == "return", "ans", "clear does not return"):
                return False
            for x in list(m.val):
                m.drop(x)
        elif op in ("pop", "peek"):
            vs = m.victims()
            kk, r = self.do(self.popn if op == "pop" else self.peekn)
            want = [("some", (x, m.val[x])) for x in vs] or [None]
            if not req(kk == "return" and r in want, "ans", f"the last {op} answers {r} instead of {' or '.join(map(str, want))}", "evictions"):
                return False
            if op == "pop" and r is not None:
                m.drop(r[1][0])
        return self.check(req)

    def check(self, req):
        """what can be asked without changing anything"""
        m = self.m
        left = [x for x in KEYS if self.do("contains", self.key(x))[1] == 1]
        n = self.do("len")[1]
        if not (req(set(left) == set(m.val), "left", f"holds {left} instead of {sorted(m.val)}") and
                req(n == len(m.val) <= m.cap, "len", f"reports {n} entries when it holds {len(m.val)} and has room for {m.cap}")):
            return False
        if self.kind in ("lfu", "heap_lfu"):
            fs = {x: self.do("frequency", self.key(x))[1] for x in KEYS}
            want = {x: ("some", m.freq[x]) if x in m.val else None for x in KEYS}
            return req(fs == want, "freq", f"reports the frequencies {fs} instead of {want}")
        if self.kind == "lru":
            if not self.nodes(req):
                return False
            order = sorted(m.val, key=m.used.get, reverse=True)
            rk = {x: self.do("recency_rank", self.key(x))[1] for x in KEYS}
            want = {x: ("some", order.index(x)) if x in m.val else None for x in KEYS}
            return req(rk == want, "rank", f"reports the recencies {rk} instead of {want}")
        if self.kind == "fifo":
            order = sorted(m.val, key=m.born.get)
            rk = {x: self.do("age_rank", self.key(x))[1] for x in KEYS}
            want = {x: ("some", order.index(x)) if x in m.val else None for x in KEYS}
            return req(rk == want, "rank", f"reports the ages {rk} instead of {want}")
        if self.kind == "lru_k":
            n = {x: self.do("access_count", self.key(x))[1] for x in KEYS}
            want = {x: ("some", len(m.hist[x])) if x in m.val else None for x in KEYS}
            d = {x: self.do("k_distance", self.key(x))[1] for x in KEYS}
            wd = {x: ("some", 1000 + m.hist[x][-m.k]) if x in m.val and len(m.hist[x]) >= m.k else None for x in KEYS}
            return req(n == want and d == wd, "hist", f"reports {n} accesses and the K-distances {d} instead of {want} and {wd}")
        return True

    def nodes(self, req):
        """every node the list or the map leads to is alive, and every other one has been given back, once"""
        mem, seen, todo = self.s.mem, set(), [self.s.mem[self.p.a[0]]]
        while todo:
            v = todo.pop()
            if v.k == "ref" and v.a[0] in mem and v.a[0] not in seen:
                seen.add(v.a[0])
                if v.a[0] not in self.freed:
                    todo.append(mem[v.a[0]])
            else:
                todo += parts(v.a)
        every = {r for r, v in mem.items() if v.k == "adt" and v.a[0].endswith("::Node")}
        return (req(not self.twice, "twice", "gives a node's memory back twice", "nodes") and req(not seen & self.freed, "dangling", "still leads to a node whose memory was given back", "nodes")
                and req(every - self.freed <= seen, "leak", "has lost a node without giving its memory back", "nodes"))


# the policies that look for what to drop among a hash map's entries
HASHED = ("lfu", "lru_k")


def ops(p):
    r = [("insert", k) for k in KEYS] + [("get", k) for k in KEYS] + [("pop", None), ("peek", None), ("clear", None)]
    if p.has("remove"):
        r += [("remove", k) for k in KEYS]
    if p.has("touch"):
        r += [("touch", k) for k in KEYS]
    if p.kind in ("lfu", "heap_lfu"):
        r += [("increment_frequency", k) for k in KEYS] + [("reset_frequency", k) for k in KEYS]
    return r


def policies(c):
    """I01: each cache holds what was put last, never more than its capacity, and drops what its policy says"""
    depth = 5 if c.tier == "thorough" else 4
    length = 120 if c.tier == "thorough" else 40

    def one(c, x):
        kind, cap, k, mode = x
        if mode[0] == "orders":
            # every way to have used three keys, and every order in which a hash map may answer them
            todo = [(Policy(c, kind, cap, k), ())]
            for d in range(mode[1]):
                nxt = []
                for p, h in todo:
                    for key in KEYS[:min(3, len(set(h)) + 1)]:
                        q = p.fork()
                        if q.step("get" if key in h else "insert", key):
                            nxt.append((q, h + (key,)))
                todo = nxt
                for p, h in todo:
                    n = len(set(h))
                    for r in range((1, 1, 2, 6)[n]):
                        for op in (("pop", None), ("peek", None), ("insert", 4)):
                            if op[0] != "insert" or n == cap:
                                q = p.fork()
                                q.shuffle(r)
                                q.step(*op)
        elif mode[0] == "all":
            # every history up to the bound; one representative of those that leave the same state
            root = Policy(c, kind, cap, k)
            seen, todo = {root.m.state()}, [root]
            for d in range(depth):
                nxt = []
                for p in todo:
                    for op in ops(p):
                        q = p.fork()
                        if not q.step(*op):
                            continue
                        st = q.m.state()
                        if st not in seen:
                            seen.add(st)
                            nxt.append(q)
                todo = nxt[:mode[1]]
        else:
            # longer histories, chosen by a fixed sequence
            p, r = Policy(c, kind, cap, k, tick=mode[2]), mode[1] * 7919 + cap
            for _ in range(length):
                r = (r * 1103515245 + 12345) & 0x7FFFFFFF
                o = ops(p)
                o += [x for x in o if x[0] == "insert"] * 2
                p.shuffle(r >> 4)
                if not p.step(*o[(r >> 8) % len(o)]):
                    break
    items = []
    for kind in POLICIES:
        for cap in (0, 1, 2, 3):
            for k in ((2, 1, 3) if kind == "lru_k" else (2,)):
                items.append((kind, cap, k, ("all", 120 if c.tier == "thorough" else 60)))
                if cap == 3 and kind in HASHED:
                    items.append((kind, cap, k, ("orders", 7 if c.tier == "thorough" else 6)))
                for s in range(40 if c.tier == "thorough" else 8):
                    items.append((kind, cap, k, ("long", s, 0 if kind == "lru_k" and s % 4 == 3 else 1)))
    c.parallel(items, one)
    c.floor("operations", 10000)
    c.floor("evictions", 500)
    c.floor("nodes", 2000)


CM = CA + "cache_manager::CacheManager"
CFG = "storage::disk::async_disk::config::DiskManagerConfig"


class Tiers:
    """the real tiered cache, with scripted content hashes, time and lock contention"""

    def __init__(self, c, sizes=(1, 1, 2), clash=False, old=False, busy=None):
        self.c, self.clash, self.old, self.busy, self.tries = c, clash, old, busy, 0
        self.s = s = Session(c, intercept=self.icept)
        self.now, self.log = 0, []
        hot = self.make("lru_k::LRUKCache::<K, V>::with_k", I(sizes[0]), I(2))
        warm = self.make("lfu::LFUCache::<K, V>::new", I(sizes[1]))
        cold = self.make("fifo::FIFOCache::<K, V>::new", I(sizes[2]))
        cfg = c.obj(CFG, "cfg", cache_size_mb=I(sum(sizes)), prefetch_distance=I(1))
        self.want = [s.alloc(x) for x in (hot, warm, cold)]
        k, v = s.call(c.P.get(CM + "::new"), s.alloc(cfg))
        if k != "return":
            raise AnchorError("the cache manager cannot be made")
        # the constructor's float arithmetic decides the sizes; the histories want small ones
        names = {"hot_cache": hot, "warm_cache": warm, "cold_cache": cold}
        f = dict(v.a[2])
        for n, x in names.items():
            r = f[n]
            if r.k != "ref" or r.a[0] not in s.mem:
                raise AnchorError(f"{n} is not a lock of its own")
            s.mem[r.a[0]] = put(s.mem[r.a[0]], x)
        for n, z in zip(("hot_cache_size", "warm_cache_size", "cold_cache_size"), sizes):
            f[n] = I(z)
        self.p = s.alloc(adt(v.a[0], v.a[1], tuple((k, f[k]) for k, _ in v.a[2])))

    def make(self, path, *args):
        k, v = self.s.call(self.c.P.get(CA + path), *args)
        return v

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if n in ("as_micros", "current_time_in_micros"):
            return [(st, I(1000 + self.now))]
        if n == "simple_hash":
            v = args[0]
            while v.k == "ref":
                v = it.deref(st, v)
            return [(st, I(7 if self.clash else 1 + ord(str(v.a[0].a[0])[0]) if v.k == "repeat" else 0))]
        if n in ("try_write", "try_read") and "RwLock" in p:
            self.tries += 1
            if self.busy is not None and self.tries - 1 == self.busy:
                return [(st, err(mk("busy")))]
        if n in ("now", "elapsed", "duration_since") and ("Time" in p or "Instant" in p):
            return [(st, mk("dur", n) if n != "duration_since" else ok(mk("dur", n)))]
        if n == "predict_prefetch_pages":
            return [(st, L(I(2), I(3)))]
        if n == "as_secs":
            return [(st, I(100 if self.old else 0))]
        if "MetricsCollector" in p:
            return [(st, UNIT)]
        if n == "try_unwrap" and args[0].k == "ref":
            return [(st, ok(it.deref(st, args[0])))]
        return None


def put(v, x):
    """the lock cell v around another cache"""
    if v.k == "adt" and v.a[0].split("::")[-1] in ("LRUKCache", "LFUCache", "FIFOCache"):
        return x
    if v.k == "adt":
        return adt(v.a[0], v.a[1], tuple((n, put(y, x)) for n, y in v.a[2]))
    return v


def tiers(c):
    """F06: whatever the tiers keep, drop, share or refuse, a page read from the cache is the page stored last"""
    from rules.writes import page, name
    pages, names = (1, 2, 3), "ABC"
    length = 40 if c.tier == "thorough" else 22
    op = [("store_page", p, n) for p in pages for n in names] + [("get_page", p) for p in pages] * 3 + [("perform_maintenance",), ("trigger_prefetch", 1)]

    def one(c, x):
        sizes, clash, old, seed, busy = x
        t = Tiers(c, sizes, clash, old)
        t.tries, t.busy = 0, busy
        held, log, r = {}, [], seed * 7919 + 13
        for i in range(length):
            r = (r * 1103515245 + 12345) & 0x7FFFFFFF
            o = op[(r >> 9) % len(op)]
            t.now += 1
            f = c.P.get(CM + "::" + o[0])
            log.append({"store_page": "store {1} in page {0}", "get_page": "get page {0}", "perform_maintenance": "maintenance", "trigger_prefetch": "prefetch {0}"}[o[0]].format(*o[1:]))
            conf = f"tiers of {'/'.join(map(str, sizes))} pages" + (", colliding hashes" if clash else "") + (", a minute between requests" if old else "") + (f", lock attempt {busy} fails" if busy is not None else "")
            what = f"[{conf}] {', '.join(log)}"
            key = f"{sizes}:{clash}:{old}:{seed}:{busy}:{i}"
            k, v = t.s.call(f, t.p, *[page(a) if isinstance(a, str) else I(a) for a in o[1:]])
            if not c.require(k == "return", key, f"{what}: does not return", f, what="requests"):
                break
            if o[0] == "store_page":
                held[o[1]] = o[2]
            if o[0] == "get_page":
                g = None if v.a[1] == "None" else name(t.s.load(v.a[2][0][1]))
                if not c.require(v.a[1] == "None" or g == held.get(o[1]), key + ":get", f"{what}: the cache answers {g} although page {o[1]} holds {held.get(o[1])}", f, what="answers"):
                    break
                c.count("hits" if v.a[1] == "Some" else "misses")
            for n, z in zip(("hot_cache", "warm_cache", "cold_cache"), sizes):
                x = [len(pairs(m)) for m in maps(t.s.mem[dict(t.s.mem[t.p.a[0]].a[2])[n].a[0]])]
                c.require(max(x) <= z, f"{key}:{n}", f"{what}: the {n} holds {max(x)} pages in room for {z}", f, what="sizes")
        if busy is None and seed % 4 == 0:
            # the same history with every single lock attempt failing
            for b in range(0, t.tries, 1 if c.tier == "thorough" else 7):
                one(c, (sizes, clash, old, seed, b))
    items = [(z, cl, o, s, None) for s in range(40 if c.tier == "thorough" else 8) for z in ((1, 1, 1), (1, 1, 2), (2, 1, 3), (1, 2, 1), (0, 1, 1)) for cl in (False, True) for o in (False, True)]
    c.parallel(items, one)
    c.floor("hits", 500)
    c.floor("requests", 4000)


def maps(v):
    if v.k == "map":
        yield v
    for x in parts(v.a):
        yield from maps(x)
