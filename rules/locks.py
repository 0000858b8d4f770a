"""Lock manager: compatibility, grants, releases, two-phase rules."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, cell, last
from prog import AnchorError

LM = "concurrency::lock_manager::"
MODE = LM + "LockMode"
MODES = ("IntentionShared", "IntentionExclusive", "Shared", "SharedIntentionExclusive", "Exclusive")
SHORT = dict(zip(MODES, ("IS", "IX", "S", "SIX", "X")))
COMPAT = {"IS": {"IS", "IX", "S", "SIX"}, "IX": {"IS", "IX"}, "S": {"IS", "S"}, "SIX": {"IS"}, "X": set()}
COVERS = {"IS": {"IS"}, "IX": {"IS", "IX"}, "S": {"IS", "S"}, "SIX": {"IS", "IX", "S", "SIX"}, "X": set(SHORT.values())}
LONG = {v: k for k, v in SHORT.items()}
INVALID = (1 << 64) - 1


def rights(ms):
    """the set of modes covered by holding all of ms"""
    r = set()
    for m in ms:
        r |= COVERS[m]
    if {"S", "IX"} <= r:
        r.add("SIX")
    return r


class Queue:
    """what the manager knows about one resource: requests (txn, mode, granted) in order, the txn converting"""

    def __init__(self, reqs, upgrading=None):
        self.reqs, self.up = tuple(reqs), upgrading

    def granted(self, t):
        return {m for x, m, g in self.reqs if x == t and g}

    def holders(self):
        return {t for t, m, g in self.reqs if g}

    def conflicts(self):
        return [(a, b) for a, b in itertools.combinations([r for r in self.reqs if r[2]], 2)
                if a[0] != b[0] and b[1] not in COMPAT[a[1]]]

    def free(self, t, m):
        """no other holder conflicts with mode m for t"""
        return all(m in COMPAT[x[1]] for x in self.reqs if x[2] and x[0] != t)

    def __repr__(self):
        return "[" + ", ".join(f"T{t}:{m}{'' if g else '?'}" for t, m, g in self.reqs) + "]" + (f" T{self.up} converting" if self.up else "")


class World:
    def __init__(self, c, row):
        self.c, self.row = c, row
        self.fresh = c.explore(LM + "LockRequestQueue::new", seq=True)[0].value
        self.oid = I(7)
        self.rid = c.obj("common::rid::RID", "rid", page_id=I(9), slot_num=I(3))
        self.key = self.rid if row else self.oid
        self.member = tup(I(7), self.rid) if row else self.oid
        self.qmap, self.omap = ("row_locks", "table_lock_map") if row else ("table_lock_map", "row_locks")
        self.set, self.oset = ("row_locks", "table_locks") if row else ("table_locks", "row_locks")

    def lock(self, v):
        return adt("Cell", "", (("data", v),))

    def build(self, q):
        """(pointer to the lock state manager, memory)"""
        mem, n = {}, 0

        def heap(v):
            nonlocal n
            n += 1
            root = ("H", f"w{n}")
            mem[root] = v
            return ref(root)
        rs = [heap(self.lock(self.c.obj(LM + "LockRequest", f"r{i}", txn_id=I(t), lock_mode=unit(MODE, LONG[m]), granted=I(g), oid=self.oid)))
              for i, (t, m, g) in enumerate(q.reqs)]
        qv = adt(self.fresh.a[0], "", tuple((k, L(*rs) if k == "request_queue" else I(q.up) if k == "upgrading" and q.up else v)
                                            for k, v in self.fresh.a[2]))
        qp = heap(self.lock(qv))
        sets = [(I(t), self.c.obj(LM + "TxnLockState", "ls", **{self.set: M((self.member, UNIT)), self.oset: M()})) for t in sorted(q.holders())]
        m = self.c.obj(LM + "LockStateManager", "m", **{self.qmap: self.lock(M((self.key, qp)) if q.reqs or q.up else M()), self.omap: self.lock(M()),
                                                        "txn_lock_sets": self.lock(M(*sets))})
        return heap(m), mem

    def args(self):
        """the arguments naming the resource"""
        return [self.oid, self.rid] if self.row else [self.oid]

    def read(self, o, mp):
        """(queue, {txn: has the resource in its lock set})"""
        it, st = o.interp, o.state
        g = lambda v, n: it.proj(v, (".", n))
        m = it.deref(st, mp)
        q = [v for k, v in pairs(g(g(m, self.qmap), "data"))]
        reqs, up = [], None
        for p in q:
            qv = g(it.deref(st, p), "data")
            u = g(qv, "upgrading")
            up = None if u.a[0] in (INVALID, -1) else u.a[0]
            for r in elems(g(qv, "request_queue")):
                r = g(it.deref(st, r), "data")
                reqs.append((g(r, "txn_id").a[0], SHORT[g(r, "lock_mode").a[1]], bool(g(r, "granted").a[0])))
        sets = {k.a[0]: self.member in [x for x, _ in pairs(g(v, self.set))] for k, v in pairs(g(g(m, "txn_lock_sets"), "data"))}
        return Queue(reqs, up), sets


def antichains():
    """the combinations of modes one transaction can hold without one covering another"""
    ms = list(COVERS)
    yield ()
    for a in ms:
        yield (a,)
    for a, b in itertools.combinations(ms, 2):
        yield (a, b)


def consistent(w, c, key, what, q, sets, f, ln=None):
    c.require(not q.conflicts(), key, f"{what}: conflicting locks are granted together: {q}", f, what="states with no conflicting grants")
    bad = [t for t in {x[0] for x in q.reqs} | set(sets) if bool(q.granted(t)) != sets.get(t, False)]
    c.require(not bad, key + ":set", f"{what}: the lock set of transaction {bad} disagrees with the queue {q}", f, what="lock sets that match the queues")


def grants(c):
    """C01"""
    thorough = c.tier == "thorough"
    f0 = c.P.get(LM + "LockCompatibilityChecker::are_compatible")
    for a in MODES:
        for b in MODES:
            for o in c.explore(f0, [unit(MODE, a), unit(MODE, b)]):
                c.require(o.value == I(SHORT[b] in COMPAT[SHORT[a]]), f"compat:{SHORT[a]}:{SHORT[b]}",
                          f"are_compatible({SHORT[a]}, {SHORT[b]}) is {show(o.value)}", f0, what="entries of the compatibility matrix")
    for row in (False, True):
        w = World(c, row)
        kind = "row" if row else "table"
        fg = c.P.get(LM + f"LockStateManager::grant_{kind}_lock")
        fr = c.P.get(LM + f"LockStateManager::release_{kind}_lock")
        ff = c.P.get(LM + "LockStateManager::force_release_txn")
        for q in queues(thorough and not row):
            # -- a request
            for m in SHORT.values():
                p, mem = w.build(q)
                key = f"{kind}:{q}:T1 asks {m}"
                what = f"{last(fg['p'])}: on a {kind} with {q}, transaction 1 asking for {m}"
                for o in c.explore(fg, [p, I(1), unit(MODE, LONG[m])] + w.args(), mem, seq=True):
                    if o.kind != "return":
                        c.require(False, key, f"{what} does not return ({o.kind})", fg)
                        continue
                    nodeadlock(c, o, key, what, fg)
                    q2, sets = w.read(o, p)
                    consistent(w, c, key, what, q2, sets, fg)
                    same = all(q2.granted(t) == q.granted(t) for t in (2, 3))
                    c.require(same, key + ":others", f"{what} changes what others hold: {q2}", fg, what="requests that leave other holders alone")
                    before, after = rights(q.granted(1)), rights(q2.granted(1))
                    c.require(before <= after, key + ":kept", f"{what} weakens what it already held: {q2}", fg, what="requests that keep the held lock")
                    if o.value == I(1):
                        c.require(m in after, key + ":true", f"{what} is answered `granted` but the queue is {q2}", fg, what="grants recorded")
                    elif o.value == I(0):
                        c.require(after == before, key + ":false", f"{what} is refused but the queue is {q2}", fg, what="refusals recorded")
                        must = any(m in COVERS[h] for h in q.granted(1)) or (q.free(1, m) and all(g for _, _, g in q.reqs))
                        c.require(not must, key + ":must", f"{what} is refused although nothing conflicts", fg, what="refusals justified")
                    else:
                        c.require(False, key, f"{what}: undecided result {show(o.value)}", fg)
                    leftover(c, w, q2, key, what, fg)
            # -- a release
            for f, t in [(fr, t) for t in (1, 2)] + [(ff, t) for t in (1, 2)]:
                p, mem = w.build(q)
                key = f"{kind}:{q}:{last(f['p'])} T{t}"
                what = f"{last(f['p'])} of transaction {t} on a {kind} with {q}"
                for o in c.explore(f, [p, I(t)] + (w.args() if f is fr else []), mem, seq=True):
                    if o.kind != "return":
                        c.require(False, key, f"{what} does not return ({o.kind})", f)
                        continue
                    nodeadlock(c, o, key, what, f)
                    q2, sets = w.read(o, p)
                    consistent(w, c, key, what, q2, sets, f)
                    okv = o.value.k == "adt" and o.value.a[1] == "Ok"
                    if f is fr:
                        c.require(okv == bool(q.granted(t)), key + ":res", f"{what} answers {show(o.value)}", f, what="releases answered")
                    else:
                        c.require(okv, key + ":res", f"{what} answers {show(o.value)}", f, what="releases answered")
                        c.require(not any(x[0] == t for x in q2.reqs), key + ":gone", f"{what} leaves its requests behind: {q2}", f, what="transactions removed from the queues")
                        c.require(q2.up != t, key + ":up", f"{what} leaves its conversion pending: {q2}", f, what="conversions of ended transactions dropped")
                    if okv:
                        c.require(not q2.granted(t), key + ":rel", f"{what} leaves it holding {q2.granted(t)}", f, what="releases that release")
                    for u in {1, 2, 3} - {t}:
                        c.require(q.granted(u) <= q2.granted(u), key + ":others", f"{what} takes away what transaction {u} holds: {q2}", f, what="releases that leave others alone")
                        extra = q2.granted(u) - q.granted(u)
                        c.require(extra <= {m for x, m, g in q.reqs if x == u and not g}, key + ":new", f"{what} grants transaction {u} modes it never asked for: {q2}", f,
                                  what="grants that were asked for")
                    leftover(c, w, q2, key, what, fg)
                    if okv:
                        stuck = [(u, m) for u, m, g in q2.reqs if not g and q2.free(u, m) and q2.up in (None, u)]
                        c.require(not stuck, key + ":stuck", f"{what}: the request {stuck} stays waiting although nothing conflicts: {q2}", f, what="waiters woken")
        c.floor("entries of the compatibility matrix", 25)
        c.floor("waiters woken", 100)
        c.floor("grants recorded", 40)


def leftover(c, w, q, key, what, fg):
    """a conversion that is no longer waiting must not stand in anyone's way"""
    if q.up is None or any(t == q.up and not g for t, m, g in q.reqs):
        c.require(True, key + ":leftover", "", fg, what="conversions that are over")
        return
    for t in sorted(q.holders() - {q.up}) + [9]:
        for m in SHORT.values():
            if m in rights(q.granted(t)) or not q.free(t, m) or not all(g for _, _, g in q.reqs):
                continue
            p, mem = w.build(q)
            vs = [show(o.value) for o in c.explore(fg, [p, I(t), unit(MODE, LONG[m])] + w.args(), mem, seq=True) if o.value == I(0)]
            c.require(not vs, key + ":leftover", f"{what}; afterwards transaction {t} asking for {m} is refused although nothing conflicts: {q}", fg, what="conversions that are over")


def queues(more):
    """representative queues: what transaction 1 holds, what the others hold, who waits"""
    own = [((),)[0]] + [(m,) for m in SHORT.values()] + [("IS", "S"), ("IX", "S"), ("IS", "IX")]
    oth = [()] + [((2, m),) for m in SHORT.values()] + [((2, a), (3, b)) for a, b in (("IS", "IX"), ("S", "S"), ("S", "IS"), ("IX", "IX"), ("IS", "SIX"))]
    seen = set()
    for o in own:
        for x in oth:
            for front in ((True, False) if more else (True,)):
                g1 = [(1, m, True) for m in o]
                g2 = [(t, m, True) for t, m in x]
                base = g1 + g2 if front else g2 + g1
                if Queue(base).conflicts():
                    continue
                if tuple(base) not in seen:
                    seen.add(tuple(base))
                    yield Queue(base)
                # one waiter: a transaction that holds nothing, or one that wants more
                for t in (1, 2, 3):
                    for m in SHORT.values() if more else ("IS", "S", "SIX", "X"):
                        q = Queue(base)
                        if not base or m in rights(q.granted(t)) or q.free(t, m):
                            continue
                        for up in ((t,) if q.granted(t) else (None,)):
                            r = tuple(base) + ((t, m, False),)
                            if (r, up) not in seen:
                                seen.add((r, up))
                                yield Queue(r, up)


def nodeadlock(c, o, key, what, f):
    held = {}
    for e in o.events:
        if e.kind == "call" and e.name.startswith("acquire:"):
            ex = last_is_exclusive(e.name)
            if e.name.split(":")[1].startswith("try_"):
                continue
            for h, hx in held.get(e.args[0], ()):
                if ex or hx:
                    c.require(False, key + ":dead", f"{what}: a lock already held by this thread is acquired again ({e.fn} line {e.line})", f)
                    return
            held.setdefault(e.args[0], []).append((e.res, ex))
        elif e.kind == "drop" and "Guard" in e.name:
            for v in subterms(e.args[0]):
                if v.k == "ref" and v.a[1] and v.a[1][-1] == (".", "data"):
                    k = ref(v.a[0], v.a[1][:-1])
                    if held.get(k):
                        held[k].pop()
    c.require(True, key + ":dead", "", f, what="paths that never acquire a lock they hold")


def last_is_exclusive(n):
    return n.split(":")[1] in ("lock", "write", "borrow_mut", "lock_arc", "write_arc", "lock_owned", "write_owned")


# ---------------------------------------------------------------- two-phase rules and deadlocks, at the level of the lock manager
TXN = "concurrency::transaction::"
ISO = ("ReadUncommitted", "ReadCommitted", "RepeatableRead", "Serializable", "Snapshot")
STATES = ("Running", "Growing", "Shrinking", "Tainted", "Committed", "Aborted")
STRICT = ("RepeatableRead", "Serializable", "Snapshot")


def may_lock(iso, state, m):
    if state in ("Tainted", "Committed", "Aborted"):
        return False
    if iso == "ReadUncommitted":
        return m in ("X", "IX") and state != "Shrinking"
    if iso == "ReadCommitted":
        return state != "Shrinking" or m in ("S", "IS")
    return state != "Shrinking"


class Mgr(World):
    """a whole lock manager, with the locks on one table and one of its rows, and transactions"""

    def __init__(self, c):
        super().__init__(c, False)
        self.lmadt = c.P.adt[LM + "LockManager"]

    def make(self, tq=(), rq=(), waits=(), victim=None):
        mem, n = {}, 0

        def heap(v):
            nonlocal n
            n += 1
            root = ("H", f"m{n}")
            mem[root] = v
            return ref(root)

        def queue(rs):
            ps = [heap(self.lock(self.c.obj(LM + "LockRequest", f"q{i}", txn_id=I(t), lock_mode=unit(MODE, LONG[m]), granted=I(g), oid=self.oid)))
                  for i, (t, m, g) in enumerate(rs)]
            return heap(self.lock(adt(self.fresh.a[0], "", tuple((k, L(*ps) if k == "request_queue" else v) for k, v in self.fresh.a[2]))))
        tx = sorted({t for t, m, g in tuple(tq) + tuple(rq) if g})
        sets = [(I(t), self.c.obj(LM + "TxnLockState", "ls", table_locks=M((self.oid, UNIT)) if any(x == t for x, _, g in tq if g) else M(),
                                  row_locks=M((tup(self.oid, self.rid), UNIT)) if any(x == t for x, _, g in rq if g) else M())) for t in tx]
        st = self.c.obj(LM + "LockStateManager", "m", table_lock_map=self.lock(M((self.oid, queue(tq))) if tq else M()),
                        row_locks=self.lock(M((self.rid, queue(rq))) if rq else M()), txn_lock_sets=self.lock(M(*sets)))
        det = self.c.obj(LM + "DeadlockDetector", "d", waits_for=heap(self.lock(M(*((I(a), L(*[I(b) for b in bs])) for a, bs in waits)))),
                         latest_abort_txn=heap(self.lock(NONE if victim is None else some(I(victim)))))
        lm = self.c.obj(LM + "LockManager", "lm", deadlock_detector=det, lock_state_manager=st)
        return heap(lm), mem, heap

    def txn(self, heap, t, iso, state):
        return heap(self.c.obj(TXN + "Transaction", f"t{t}", txn_id=I(t), isolation_level=unit(TXN + "IsolationLevel", iso),
                               state=self.lock(unit(TXN + "TransactionState", state))))

    def g(self, v, *ns):
        for n in ns:
            v = self.it.proj(v, (".", n))
        return v

    def look(self, o, p):
        """(table queue, row queue, lock sets, waits-for edges) after o"""
        self.it = it = o.interp
        g = self.g
        m = it.deref(o.state, p)

        def q(name):
            r = []
            for k, v in pairs(g(m, "lock_state_manager", name, "data")):
                for x in elems(g(it.deref(o.state, v), "data", "request_queue")):
                    x = g(it.deref(o.state, x), "data")
                    r.append((g(x, "txn_id").a[0], SHORT[g(x, "lock_mode").a[1]], bool(g(x, "granted").a[0])))
            return Queue(r)
        sets = {k.a[0]: (bool(pairs(g(v, "table_locks"))), bool(pairs(g(v, "row_locks")))) for k, v in
                pairs(g(m, "lock_state_manager", "txn_lock_sets", "data"))}
        w = g(it.deref(o.state, g(m, "deadlock_detector", "waits_for")), "data")
        edges = {k.a[0]: {x.a[0] for x in elems(v)} for k, v in pairs(w)}
        return q("table_lock_map"), q("row_locks"), sets, {k: v for k, v in edges.items() if v}

    def state(self, o, t):
        return o.interp.proj(o.interp.proj(o.interp.deref(o.state, t), (".", "state")), (".", "data")).a[1]


def twophase(c):
    """C02"""
    w = Mgr(c)
    fl, fu, fr, fx = (c.P.get(LM + "LockManager::" + n) for n in ("lock_table", "unlock_table", "lock_row", "unlock_row"))
    okv = lambda o: o.value.k == "adt" and o.value.a[1] == "Ok" and o.value.a[2][0][1] == I(1)
    # requests on free resources
    for iso in ISO:
        for state in STATES:
            for m in SHORT.values():
                p, mem, heap = w.make()
                t = w.txn(heap, 1, iso, state)
                key = f"table:{iso}:{state}:{m}"
                what = f"lock_table({m}) by a {state} transaction at {iso}"
                for o in c.explore(fl, [p, t, unit(MODE, LONG[m]), w.oid], mem, seq=True):
                    tq, _, sets, _ = w.look(o, p)
                    want = may_lock(iso, state, m)
                    c.require(okv(o) == want, key, f"{what} is {'granted' if okv(o) else 'refused'}", fl, what="table requests by isolation level and state")
                    c.require(bool(tq.granted(1)) == want and sets.get(1, (0, 0))[0] == want, key + ":held", f"{what} leaves the queue {tq} and lock set {sets}", fl)
                    after = w.state(o, t)
                    c.require(after in (state, "Aborted") and (not want or after == state or (state, after) == ("Running", "Growing")), key + ":state",
                              f"{what} moves it to {after}", fl, what="requests that keep the state")
            for m in SHORT.values():
                for tm in (None,) + tuple(SHORT.values()):
                    if tm and state not in ("Running", "Shrinking", "Committed") and tm != "SIX":
                        continue
                    p, mem, heap = w.make(tq=((1, tm, True),) if tm else ())
                    t = w.txn(heap, 1, iso, state)
                    key = f"row:{iso}:{state}:{tm}:{m}"
                    what = f"lock_row({m}) by a {state} transaction at {iso} holding {tm or 'nothing'} on the table"
                    for o in c.explore(fr, [p, t, unit(MODE, LONG[m]), w.oid, w.rid], mem, seq=True):
                        tq, rq, sets, _ = w.look(o, p)
                        allowed = m in ("S", "X") and may_lock(iso, state, m)
                        right = tm in (("X", "IX", "SIX") if m == "X" else ("S", "IS", "SIX"))
                        loose = right or (m == "S" and tm in ("X", "IX"))
                        if allowed and right:
                            c.require(okv(o), key, f"{what} is refused", fr, what="row requests granted")
                        elif not (allowed and loose):
                            c.require(not okv(o) and not rq.granted(1), key, f"{what} is granted", fr, what="row requests refused")
                        c.require(bool(rq.granted(1)) == okv(o) == sets.get(1, (0, 0))[1], key + ":held", f"{what}: answer {show(o.value)}, queue {rq}, lock set {sets}", fr)
                        c.require(tq.granted(1) == ({tm} if tm else set()), key + ":table", f"{what} changes the table locks to {tq}", fr)
                        after = w.state(o, t)
                        c.require(after in (state, "Aborted") and (state != "Committed" or after == state), key + ":state", f"{what} moves it to {after}", fr)
            # releases
            for m in SHORT.values():
                for f, tq, rq in ((fu, ((1, m, True),), ()), (fx, ((1, "SIX", True),), ((1, m, True),)), (fu, ((1, m, True),), ((1, "S", True),)), (fu, ((2, "IS", True),), ())):
                    if f is fx and m not in ("S", "X"):
                        continue
                    if tq[0][0] == 2 and m != "S":
                        continue
                    p, mem, heap = w.make(tq=tq, rq=rq)
                    t = w.txn(heap, 1, iso, state)
                    rows = f is fu and rq
                    owns = tq[0][0] == 1
                    key = f"{last(f['p'])}:{iso}:{state}:{m}:{'rows' if rows else ''}:{owns}"
                    what = f"{last(f['p'])}({m}) by a {state} transaction at {iso} with table locks {tq}, row locks {rq}"
                    for o in c.explore(f, [p, t, unit(MODE, LONG[m]), w.oid] + ([w.rid] if f is fx else []), mem, seq=True):
                        tq2, rq2, sets, _ = w.look(o, p)
                        after = w.state(o, t)
                        if not owns or rows:
                            c.require(not okv(o), key, f"{what} succeeds", f, what="wrong releases refused")
                            c.require(tq2.granted(1) == Queue(tq).granted(1) and rq2.granted(1) == Queue(rq).granted(1), key + ":held", f"{what} changes what it holds: {tq2} {rq2}", f)
                        else:
                            c.require(okv(o), key, f"{what} is refused", f, what="releases")
                            c.require(not (rq2 if f is fx else tq2).granted(1), key + ":rel", f"{what} leaves {tq2} {rq2}", f)
                            shrink = m == "X" and iso != "Snapshot" or m == "S" and iso in ("RepeatableRead", "Serializable")
                            if shrink and state in ("Running", "Growing"):
                                c.require(after == "Shrinking", key + ":shrink", f"{what} leaves it {after}, able to acquire locks again", f, what="releases that start the shrinking phase")
                        if state in ("Committed", "Aborted"):
                            c.require(after == state, key + ":final", f"{what} moves it to {after}", f, what="final states kept")
    for k, n in (("table requests by isolation level and state", 150), ("row requests granted", 20), ("row requests refused", 300), ("releases that start the shrinking phase", 20),
                 ("final states kept", 40)):
        c.floor(k, n)


def cyclic(edges):
    """the nodes on some cycle"""
    ns = set(edges) | {x for v in edges.values() for x in v}
    reach = {n: set(edges.get(n, ())) for n in ns}
    for k in ns:
        for a in ns:
            if k in reach[a]:
                reach[a] |= reach[k]
    return {n for n in ns if n in reach[n]}, reach


def deadlocks(c):
    """C03"""
    f = c.P.get(LM + "DeadlockDetector::has_cycle")
    w = Mgr(c)
    ns = (1, 2, 3)
    graphs = []
    pairs3 = [(a, b) for a in ns for b in ns if a != b]
    for bits in range(1 << 6):
        es = [e for i, e in enumerate(pairs3) if bits >> i & 1]
        for order in itertools.permutations(ns):
            g = [(a, [b for x, b in es if x == a]) for a in order]
            graphs.append([x for x in g if x[1]])
    graphs += [[(4, [1]), (1, [2]), (2, [1])], [(1, [2]), (2, [3]), (3, [4]), (4, [2])], [(1, [2, 3]), (2, [4]), (3, [4]), (4, [])], [(2, [1, 4]), (4, [3]), (3, [2])],
               [(4, [3]), (3, [2]), (2, [1])], [(1, [4]), (4, [1]), (2, [3]), (3, [2])]]
    seen = set()
    for g in graphs:
        k = repr(g)
        if k in seen:
            continue
        seen.add(k)
        p, mem, heap = w.make(waits=g)
        out = heap(I(INVALID))
        det = ref(p.a[0], ((".", "deadlock_detector"),))
        cyc, reach = cyclic(dict(g))
        for o in c.explore(f, [det, out], mem, seq=True):
            v = o.interp.deref(o.state, out)
            key = f"cycle:{g}"
            c.require(o.value == I(bool(cyc)), key, f"has_cycle on the waits-for graph {g} answers {show(o.value)}", f, what="waits-for graphs decided")
            if cyc and o.value == I(1):
                # the victim is the highest transaction of one of the cycles
                good = {x for x in cyc if any(x == max(cy) for cy in simple_cycles(dict(g)))}
                c.require(v.k == "i" and v.a[0] in good, key + ":victim", f"has_cycle on {g} names {show(v)} as the victim; the highest transactions of the cycles are {sorted(good)}", f,
                          what="victims chosen")
            nodeadlock(c, o, key, "has_cycle", f)
    # who waits for whom
    fl, fr = c.P.get(LM + "LockManager::lock_table"), c.P.get(LM + "LockManager::lock_row")
    fu, ff, fd = (c.P.get(LM + "LockManager::" + n) for n in ("unlock_table", "force_release_txn", "check_deadlock"))
    combos = [()] + [((2, a),) for a in SHORT.values()] + [((2, "IS"), (3, "IX")), ((2, "S"), (3, "S")), ((2, "IS"), (3, "S")), ((1, "S"), (2, "S")), ((1, "S"), (2, "S"), (3, "IS")),
              ((1, "IX"), (2, "IX"), (3, "IS")), ((1, "IS"), (2, "IX"))]
    for comb in combos:
        q = tuple(x + (True,) for x in comb)
        Q = Queue(q)
        for m in SHORT.values():
            for row in (False, True):
                if row and m not in ("S", "X"):
                    continue
                p, mem, heap = w.make(tq=((1, "SIX", True),), rq=q) if row else w.make(tq=q)
                t = w.txn(heap, 1, "RepeatableRead", "Running")
                g = fr if row else fl
                what = f"{last(g['p'])}({m}) by transaction 1 with {Q} granted"
                key = f"{last(g['p'])}:{Q}:{m}"
                for o in c.explore(g, [p, t, unit(MODE, LONG[m]), w.oid] + ([w.rid] if row else []), mem, seq=True):
                    tq, rq, _, edges = w.look(o, p)
                    block = {x for x, h, _ in q if x != 1 and m not in COMPAT[h]}
                    granted = o.value.k == "adt" and o.value.a[1] == "Ok" and o.value.a[2][0][1] == I(1)
                    if granted:
                        c.require(not edges, key, f"{what} is granted, yet it is recorded as waiting: {edges}", g, what="grants that wait for nobody")
                    else:
                        c.require(edges == {1: block}, key, f"{what} must wait for {sorted(block)}; the waits-for graph has {edges}", g, what="refused requests that wait for their blockers")
                    nodeadlock(c, o, key, what, g)
    # an upgrade waiting behind another holder blocks newcomers: they wait for the upgrader
    # releases: those still blocked keep waiting, those granted wait for nobody
    for q, rel in ((((2, "S", True), (3, "S", True), (1, "X", False)), 2), (((2, "X", True), (1, "S", False)), 2), (((2, "X", True), (1, "S", False), (3, "S", False)), 2),
                   (((2, "X", True), (1, "S", False), (3, "X", False)), 2), (((2, "IX", True), (3, "IS", True), (1, "S", False)), 2), (((2, "IX", True), (3, "IS", True), (1, "X", False)), 2)):
        waits = [(t, [h for h, hm, hg in q if hg and h != t and m not in COMPAT[hm]]) for t, m, g in q if not g]
        for g in (fu, ff):
            p, mem, heap = w.make(tq=q, waits=[x for x in waits if x[1]])
            t = w.txn(heap, rel, "RepeatableRead", "Running")
            what = f"{last(g['p'])} of transaction {rel} with {Queue(q)}"
            key = f"{last(g['p'])}:{Queue(q)}"
            args = [p, t, unit(MODE, LONG[q[0][1]]), w.oid] if g is fu else [p, I(rel)]
            for o in c.explore(g, args, mem, seq=True):
                tq, rq, _, edges = w.look(o, p)
                for t2, m, gr in tq.reqs:
                    block = {h for h, hm, hg in tq.reqs if hg and h != t2 and m not in COMPAT[hm]} if not gr else set()
                    c.require(edges.get(t2, set()) == block, key + f":{t2}", f"{what}: transaction {t2} now waits for {sorted(block)}; the waits-for graph has {edges}", g,
                              what="waits after a release")
                c.require(rel not in edges, key + ":gone", f"{what}: it is still recorded as waiting: {edges}", g, what="waits after a release")
                nodeadlock(c, o, key, what, g)
    # only the victim is told to abort
    for victim in (None, 1, 2):
        p, mem, heap = w.make(victim=victim)
        t = w.txn(heap, 1, "RepeatableRead", "Running")
        for o in c.explore(fd, [p, t], mem, seq=True):
            hit = o.value.k == "adt" and o.value.a[1] == "Ok" and o.value.a[2][0][1] == I(1)
            c.require(hit == (victim == 1) and (w.state(o, t) == "Aborted") == (victim == 1), f"check:{victim}",
                      f"check_deadlock for transaction 1 when the victim is {victim} answers {show(o.value)} and leaves it {w.state(o, t)}", fd, what="victims told")
    for k, n in (("waits-for graphs decided", 200), ("victims chosen", 100), ("refused requests that wait for their blockers", 25), ("waits after a release", 20)):
        c.floor(k, n)


def simple_cycles(edges):
    out = []

    def go(path):
        for n in edges.get(path[-1], ()):
            if n == path[0]:
                out.append(tuple(path))
            elif n not in path and n > path[0]:
                go(path + [n])
    for s in edges:
        go([s])
    # cycles are found from their least node
    return out
