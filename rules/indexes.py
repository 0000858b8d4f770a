"""The in-memory B+ tree: the entries it holds and the scans that list them."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, last, Session
from prog import AnchorError
from rules.operators import TUPLE, RID

IX = "storage::index::"
TREE = IX + "b_plus_tree::BPlusTree"
INFO = IX + "types::index_types::IndexInfo"
INDEX = IX + "index_impl::Index"
ITER = IX + "index_iterator_mem::IndexIterator"
CMPB = "types_db::types::CmpBool"
ORD = "core::cmp::Ordering"
VALUE = "types_db::value::Value"

# what a comparison of two keys yields; rank None is NULL
CMPS = {"compare_equals": lambda a, b: a == b, "compare_not_equals": lambda a, b: a != b, "compare_less_than": lambda a, b: a < b,
        "compare_less_than_equals": lambda a, b: a <= b, "compare_greater_than": lambda a, b: a > b, "compare_greater_than_equals": lambda a, b: a >= b}
OPS = {"eq": lambda o: o == 0, "ne": lambda o: o != 0, "lt": lambda o: o < 0, "le": lambda o: o <= 0, "gt": lambda o: o > 0, "ge": lambda o: o >= 0}


def info_path(c):
    n = [p for p in c.P.adt if p.startswith(IX) and last(p) == "IndexInfo"]
    if len(n) != 1:
        raise AnchorError("no single IndexInfo type")
    return n[0]


class Keys:
    """opaque keys of known order"""

    def key(self, r):
        return adt("KEY", "NULL" if r is None else str(r), ())

    def rank(self, it, st, v):
        for _ in range(6):
            if v.k == "ref":
                v = it.deref(st, v)
        if v.k == "adt" and v.a[0] == "KEY":
            return (None if v.a[1] == "NULL" else int(v.a[1]),)
        return None

    def keys_icept(self, it, st, p, r, u, args, line):
        n = last(p)
        if not args:
            return None
        a = self.rank(it, st, args[0])
        if a is None:
            return None
        if n == "is_null":
            return [(st, I(int(a[0] is None)))]
        b = self.rank(it, st, args[1]) if len(args) > 1 else None
        if b is None:
            return None
        if n in CMPS:
            if a[0] is None or b[0] is None:
                return [(st, unit(CMPB, "CmpNull"))]
            return [(st, unit(CMPB, "CmpTrue" if CMPS[n](a[0], b[0]) else "CmpFalse"))]
        low = lambda x: (x[0] is not None, x[0] or 0)
        o = (low(a) > low(b)) - (low(a) < low(b))
        if n in OPS:
            return [(st, I(int(OPS[n](o))))]
        if n in ("cmp", "partial_cmp"):
            v = unit(ORD, ("Less", "Equal", "Greater")[o + 1])
            return [(st, v if n == "cmp" else some(v))]
        return None


class Tree(Keys):
    """a tree next to the entries it should hold"""

    def __init__(self, c, order):
        self.c, self.order = c, order
        self.s = Session(c, intercept=self.icept, inline_drop=lambda u: True)
        info = c.obj(info_path(c), "info", key_attrs=L(I(0)))
        self.me = self.s.alloc(self.make(TREE + "::new", I(order), self.s.alloc(info)))
        self.model, self.hist = [], []

    def fork(self):
        t = object.__new__(Tree)
        t.__dict__.update(self.__dict__)
        t.s = self.s.fork()
        t.s.kw = {**self.s.kw, "intercept": t.icept}
        t.model, t.hist = list(self.model), list(self.hist)
        return t

    def icept(self, it, st, p, r, u, args, line):
        if last(p) == "fmt":
            return None
        return self.keys_icept(it, st, p, r, u, args, line)

    def make(self, path, *a):
        k, v = self.s.call(self.c.P.get(path) if isinstance(path, str) else path, *a)
        if k != "return":
            raise AnchorError(f"{path} does not return: {k}")
        return v

    def rid(self, n):
        return self.c.obj(RID, "rid", page_id=I(n // 10), slot_num=I(n % 10))

    def tuple(self, r):
        return self.s.alloc(self.c.obj(TUPLE, "key", values=L(self.key(r))))

    def insert(self, r, n):
        k, v = self.s.call(self.c.P.get(TREE + "::insert"), self.me, self.key(r), self.rid(n))
        self.hist.append(f"+{'NULL' if r is None else r}")
        return k if k != "return" else v

    def delete(self, r, n):
        k, v = self.s.call(self.c.P.get(TREE + "::delete"), self.me, self.s.alloc(self.key(r)), self.rid(n))
        self.hist.append(f"-{'NULL' if r is None else r}")
        return k if k != "return" else v

    def entries(self, k, v):
        if k != "return":
            return k
        if v.k != "adt" or v.a[1] != "Ok":
            return "failure"
        it, st = self.s.o.interp, self.s.o.state
        out = []
        for e in elems(v.a[2][0][1]):
            r = self.rank(it, st, it.proj(e, (".", "0")))
            x = it.proj(e, (".", "1"))
            p, sl = it.proj(x, (".", "page_id")), it.proj(x, (".", "slot_num"))
            out.append((r[0] if r else "?", p.a[0] * 10 + sl.a[0]))
        return out

    def full(self):
        return self.entries(*self.s.call(self.c.P.get(TREE + "::scan_full"), self.me))

    def range(self, a, b, incl):
        return self.entries(*self.s.call(self.c.P.get(TREE + "::scan_range"), self.me, self.tuple(a), self.tuple(b), I(int(incl))))


def low(r):
    return (r is not None, r or 0)


def same(got, want):
    """the entries, in the order of their keys"""
    if not isinstance(got, list):
        return False
    ks = [low(e[0]) for e in got]
    return ks == sorted(ks) and sorted(got, key=lambda e: (low(e[0]), e[1])) == sorted(want, key=lambda e: (low(e[0]), e[1]))


def look(c, T, key, ranges=()):
    f = c.P.get(TREE + "::scan_full")
    say = f"tree of order {T.order} after {' '.join(T.hist[-40:])}"
    got = T.full()
    if not c.require(same(got, T.model), f"full:{key}", f"{say}: the scan lists {got}; the entries are {sorted(T.model, key=lambda e: (low(e[0]), e[1]))}", f, what="whole scans"):
        return False
    f = c.P.get(TREE + "::scan_range")
    for a, b, incl in ranges:
        want = [e for e in T.model if low(a) <= low(e[0]) and (low(e[0]) <= low(b) if incl else low(e[0]) < low(b))]
        got = T.range(a, b, incl)
        if not c.require(same(got, want), f"range:{key}:{a}:{b}:{incl}", f"{say}: the scan from {a} to {b}{'' if incl else ' (excluded)'} lists {got}; the entries there are {want}", f, what="range scans"):
            return False
    return True


def put(c, T, r, n, key):
    v = T.insert(r, n)
    if not c.require(v == TRUE, f"insert:{key}", f"tree of order {T.order} after {' '.join(T.hist[-40:])}: the last insert returns {show(v) if isinstance(v, V) else v}", c.P.get(TREE + "::insert"), what="inserts"):
        return False
    T.model.append((r, n))
    return True


def take(c, T, e, key):
    v = T.delete(*e)
    if not c.require(v == TRUE, f"delete:{key}", f"tree of order {T.order} after {' '.join(T.hist[-40:])}: the last delete, of an entry, returns {show(v) if isinstance(v, V) else v}", c.P.get(TREE + "::delete"), what="deletes"):
        return False
    T.model.remove(e)
    return True


def spans(ranks):
    """bounds on, between and outside the keys"""
    xs = sorted({r for r in ranks if r is not None})
    xs = sorted(set(xs) | {x + 1 for x in xs} | {x - 1 for x in xs}) or [0]
    out = [(None, xs[-1], True), (None, None, True)]
    for a in xs:
        for b in xs:
            if a <= b:
                out += [(a, b, True), (a, b, False)]
    return out


def thin(xs, n):
    return xs[:: max(1, len(xs) // n)]


def short(c, job):
    """a short history, then every single deletion"""
    order, ranks = job
    T = Tree(c, order)
    key = f"{order}:{ranks}"
    for n, r in enumerate(ranks):
        if not put(c, T, r, n, f"{key}:{n}"):
            return
    if not look(c, T, key, thin(spans(ranks), 30 if len(ranks) > 4 else 999)):
        return
    # an entry that is there is not added again; one that is not there is not removed
    for n, r in enumerate(ranks):
        U = T.fork()
        v = U.insert(r, n)
        c.require(v == FALSE, f"again:{key}:{n}", f"tree of order {order} after {' '.join(U.hist)}: the last insert, of an entry that is there, returns {show(v) if isinstance(v, V) else v}", c.P.get(TREE + "::insert"))
        look(c, U, f"again:{key}:{n}")
        U = T.fork()
        v = U.delete(r, n + 50)
        c.require(v == FALSE, f"absent:{key}:{n}", f"tree of order {order} after {' '.join(U.hist)}: the last delete, of no entry, returns {show(v) if isinstance(v, V) else v}", c.P.get(TREE + "::delete"))
        look(c, U, f"absent:{key}:{n}")
        U = T.fork()
        if take(c, U, (r, n), f"{key}:{n}"):
            look(c, U, f"{key}:-{n}", [(r, r, True)])


def long(c, job):
    """a long history: inserts in one order, deletes in another, some inserts again"""
    order, name, n, how = job
    T = Tree(c, order)
    key = f"{order}:{name}:{n}:{how}"
    ranks = [PATTERNS[name](i, n) for i in range(n)]
    for i, r in enumerate(ranks):
        if not put(c, T, r, i, f"{key}:{i}"):
            return
        if i % 4 == 3 and not look(c, T, f"{key}:+{i}", [(r, r, True)]):
            return
    if not look(c, T, key, thin(spans(ranks), 12)):
        return
    order_ = DELETES[how](list(range(n)))
    for j, i in enumerate(order_):
        r = ranks[i]
        if not take(c, T, (r, i), f"{key}:-{j}") or not look(c, T, f"{key}:-{j}", [(r, r, True)] if j % 3 == 0 else ()):
            return
        if how == "again" and j % 3 == 2:
            if not put(c, T, ranks[order_[j - 1]], 100 + j, f"{key}:~{j}"):
                return
    look(c, T, f"{key}:end", [(0, 10, True)])


PATTERNS = {
    "rising": lambda i, n: 2 * i,
    "falling": lambda i, n: 2 * (n - i),
    "equal": lambda i, n: 4,
    "inwards": lambda i, n: 2 * (i // 2 if i % 2 else n - i // 2),
    "outwards": lambda i, n: 2 * n + (1 if i % 2 else -1) * 2 * i,
    "two": lambda i, n: 2 * (i % 2),
    "three": lambda i, n: 2 * ((i * 7) % 3),
    "runs": lambda i, n: 2 * (i // 5),
    "mixed": lambda i, n: 2 * ((i * 7) % n),
    "nulls": lambda i, n: None if i % 3 == 0 else 2 * ((i * 5) % 7),
}
DELETES = {
    "front": lambda xs: xs,
    "back": lambda xs: xs[::-1],
    "middle": lambda xs: sorted(xs, key=lambda i: abs(i - len(xs) // 2)),
    "scattered": lambda xs: [x for k in range(3) for x in xs[k::3]],
    "again": lambda xs: [x for k in range(5) for x in xs[k::5]],
}


def weak(n):
    """the order patterns of n keys"""
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        m = {x: i for i, x in enumerate(sorted(set(t)))}
        k = tuple(2 * m[x] for x in t)
        if k not in seen:
            seen.add(k)
            yield k


def trees(c):
    """I01"""
    c.rule_text = "after every history of inserts and deletes, scans of the tree list exactly the entries put in and not removed, in the order of their keys"
    jobs = [(o, t) for n in range(1, 5) for t in weak(n) for o in (3, 4)] + [(3, t) for t in weak(5)] + [(4, t) for i, t in enumerate(weak(5)) if i % 3 == 0]
    jobs += [(o, tuple(None if x == 0 else x for x in t)) for t in weak(4) for o in (3, 4)]
    jobs += [(o, t) for t in ((4,) * 6, (0, 2, 4, 4, 4, 4, 2), (8, 6, 4, 2, 4, 6, 4), (2, 2, 0, 0, 2, 0, 2, 0)) for o in (3, 4, 5)]
    c.parallel(jobs, short)
    jobs = [(o, p, n, h) for o, n in ((3, 14), (4, 24), (5, 28)) for p in PATTERNS for h in DELETES]
    c.parallel(jobs, long)
    c.floor("inserts", 1000)
    c.floor("deletes", 1000)
    c.floor("range scans", 1000)
