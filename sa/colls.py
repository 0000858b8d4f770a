"""Concrete-shape collections: lists (Vec, VecDeque, slices, heaps) and maps (HashMap, BTreeMap, sets).

A collection whose shape a rule fixed (`L(..)`, `M(..)`), or that the analysed code itself created
empty in the sequential model, is a value `list(elems)` / `map(entries)` whose elements are arbitrary
symbolic values.  Operations on it are exact: key lookups fork on the equality of symbolic keys.
Collections of unknown shape keep the approximations in intrinsics.py.
"""
from interp import (V, mk, I, S, TRUE, FALSE, UNIT, adt, some, NONE, ok, err, tup, ref, OPTION, RESULT, INT_BITS, ladd, lnot)
import intrinsics as X
from intrinsics import TABLE

VEC, DEQ, SL = "alloc::vec::Vec::<T, A>::", "alloc::collections::vec_deque::VecDeque::<T, A>::", "core::slice::<impl [T]>::"
HM, HS = "std::collections::hash::map::HashMap::<K, V, S, A>::", "std::collections::hash::set::HashSet::<T, S, A>::"
BM, BS = "alloc::collections::btree::map::BTreeMap::<K, V, A>::", "alloc::collections::btree::set::BTreeSet::<T, A>::"
BH = "alloc::collections::binary_heap::BinaryHeap::<T, A>::"
LLS = "alloc::collections::linked_list::LinkedList::<T, A>::"
IT = X.IT
SEQS = (VEC, DEQ, SL, LLS)
MAPS = (HM, BM, "std::collections::hash::map::HashMap::<K, V, S>::")
SETS = (HS, BS, "std::collections::hash::set::HashSet::<T, S>::")


def L(*xs):
    return mk("list", tuple(xs))


def M(*kvs):
    return mk("map", tuple(kvs))


def elems(v):
    if v.k == "list":
        return v.a[0]
    if v.k == "adt" and v.a[0] == "array":
        return tuple(x for _, x in v.a[2])
    if v.k == "repeat" and v.a[1].isdigit() and int(v.a[1]) <= 4096:
        return (v.a[0],) * int(v.a[1])
    return None


def pairs(v):
    """the (key, value) pairs of a map or set"""
    if v.k == "map":
        return v.a[0]
    raise AssertionError(f"not a map: {v}")


def conc(v):
    return v.k in ("list", "map") or elems(v) is not None


def loc(it, st, v):
    """(root, path, collection) behind a pointer (chasing boxes)"""
    n = 0
    if v.k in ("list", "map"):
        return ("T", v), (), v
    while True:
        r, p = it.target(v)
        x = it.load(st, r, p)
        if x.k != "ref" or n > 4:
            return r, p, x
        v = x
        n += 1


def over(names, pred=None):
    """register f(it, st, args, cont, cap, c, r, p, coll) for collections of known shape"""
    def d(f):
        for n in names:
            prev = TABLE.get(n)

            def h(it, st, args, cont, cap, c, prev=prev):
                if args:
                    r, p, v = loc(it, st, args[0])
                    if conc(v) and (pred is None or pred(v)):
                        o = f(it, st, args, cont, cap, c, r, p, v)
                        if o is not None:
                            return o
                if prev is not None:
                    return prev(it, st, args, cont, cap, c)
                x = it.ctor(c["p"], args)
                if x is not None:
                    return it.resume(st, cont, cap, x)
                return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])
            TABLE[n] = h
        return f
    return d


def last(c):
    return c["p"].split("::")[-1]


def names(bases, *ms):
    return [b + m for b in bases for m in ms]


def cellof(it, st, v, tag="cell"):
    st.n += 1
    root = ("H", it.fid(st, tag))
    st.mem[root] = v
    return ref(root)


def which(it, st, idx, n):
    """fork over the positions a (possibly symbolic) index can designate; (state, None) = out of range"""
    if idx.k == "i":
        return [(st, idx.a[0] if 0 <= idx.a[0] < n else None)]
    out, rest = [], st
    for i in range(n):
        s2 = rest.copy()
        t = it.cmp("Eq", idx, I(i), None)
        if it.assume(s2, t, True):
            out.append((s2, i))
        if not it.assume(rest, t, False):
            return out
    out.append((rest, None))
    return out


def bounds(it, st, rng, n):
    """concrete (lo, hi) of a range argument"""
    f = dict(rng.a[2])
    path = rng.a[0].split("::")[-1]
    lo, hi = f.get("start", I(0)), f.get("end", f.get("last", I(n)))
    if lo.k != "i" or hi.k != "i":
        return None
    lo, hi = lo.a[0], hi.a[0]
    if path in ("RangeInclusive", "RangeToInclusive"):
        hi += 1
    return lo, hi


# ---------------------------------------------------------------- lists
@over(names(SEQS, "push", "push_back") + [BH + "push"])
def push(it, st, args, cont, cap, c, r, p, v):
    it.store(st, r, p, L(*elems(v), args[1]))
    return it.resume(st, cont, cap, UNIT)


@over(names(SEQS, "push_front"))
def push_front(it, st, args, cont, cap, c, r, p, v):
    it.store(st, r, p, L(args[1], *elems(v)))
    return it.resume(st, cont, cap, UNIT)


@over(names(SEQS, "pop", "pop_back", "pop_front"))
def pop(it, st, args, cont, cap, c, r, p, v):
    xs = elems(v)
    if not xs:
        return it.resume(st, cont, cap, NONE)
    if last(c) == "pop_front":
        x, xs = xs[0], xs[1:]
    else:
        x, xs = xs[-1], xs[:-1]
    it.store(st, r, p, L(*xs))
    return it.resume(st, cont, cap, some(x))


@over(names(SEQS, "insert"))
def insert(it, st, args, cont, cap, c, r, p, v):
    out = []
    xs = elems(v)
    for s2, i in which(it, st, args[1], len(xs) + 1):
        if i is not None:
            it.store(s2, r, p, L(*xs[:i], args[2], *xs[i:]))
            out += it.resume(s2, cont, cap, UNIT)
    return out


@over(names(SEQS, "remove", "swap_remove"))
def remove(it, st, args, cont, cap, c, r, p, v):
    out = []
    xs = elems(v)
    opt = c["p"].startswith(DEQ)
    for s2, i in which(it, st, args[1], len(xs)):
        if i is None:
            if opt:
                out += it.resume(s2, cont, cap, NONE)
            continue
        ys = list(xs)
        x = ys.pop(i)
        if last(c) == "swap_remove" and i < len(ys):
            ys.insert(i, ys.pop())
        it.store(s2, r, p, L(*ys))
        out += it.resume(s2, cont, cap, some(x) if opt else x)
    return out


@over(names(SEQS, "clear") + [BH + "clear"])
def clear(it, st, args, cont, cap, c, r, p, v):
    it.store(st, r, p, L())
    return it.resume(st, cont, cap, UNIT)


@over(names(SEQS, "truncate", "resize", "split_off", "reverse", "swap", "fill"))
def shape(it, st, args, cont, cap, c, r, p, v):
    xs, l = list(elems(v)), last(c)
    ret = UNIT
    if l in ("truncate", "resize", "split_off"):
        if args[1].k != "i":
            return None
        n = args[1].a[0]
        if l == "split_off":
            ret = L(*xs[n:])
        xs = xs[:n] + ([args[2]] * (n - len(xs)) if l == "resize" and n <= 256 else [])
        if l == "resize" and len(xs) != n:
            return None
    elif l == "reverse":
        xs = xs[::-1]
    elif l == "fill":
        xs = [args[1]] * len(xs)
    elif l == "swap":
        if args[1].k != "i" or args[2].k != "i":
            return None
        i, j = args[1].a[0], args[2].a[0]
        xs[i], xs[j] = xs[j], xs[i]
    it.store(st, r, p, L(*xs))
    return it.resume(st, cont, cap, ret)


@over(names(SEQS, "extend_from_slice", "append") + ["core::iter::traits::collect::Extend::extend"])
def extend(it, st, args, cont, cap, c, r, p, v):
    if v.k == "map":
        src = args[1]
        if src.k != "iter":
            src = as_iter(it, st, args[1])
        if src is None or not is_conc(src):
            return None

        def k(s, xs, r, p):
            outs = [s]
            for x in xs:
                kk, vv = (it.proj(x, (".", "0")), it.proj(x, (".", "1"))) if x.k == "adt" and x.a[0] == "tuple" else (x, UNIT)
                nxt = []
                for s2 in outs:
                    m = it.load(s2, r, p)
                    for s3, i in find_key(it, s2, m, kk):
                        put(it, s3, r, p, m, i, kk, vv)
                        nxt.append(s3)
                outs = nxt
            return [o for s2 in outs for o in it.resume(s2, cont, cap, UNIT)]
        return drain_all(it, st, src, k, (r, p), c["line"])
    l = last(c)
    if l == "extend":
        src = args[1] if args[1].k == "iter" else as_iter(it, st, args[1])
        if src is None or not is_conc(src):
            return None

        def k(s, xs, r, p):
            xs = tuple(it.deref(s, x) if x.k == "ref" and by_ref else x for x in xs)
            it.store(s, r, p, L(*elems(it.load(s, r, p)), *xs))
            return it.resume(s, cont, cap, UNIT)
        g = c["g"]
        by_ref = len(g) > 1 and g[1].startswith("&")
        return drain_all(it, st, src, k, (r, p), c["line"])
    r2, p2, w = loc(it, st, args[1])
    ws = elems(w)
    if ws is None:
        return None
    it.store(st, r, p, L(*elems(v), *ws))
    if l == "append":
        it.store(st, r2, p2, L())
    return it.resume(st, cont, cap, UNIT)


@over(names(SEQS, "len") + names(MAPS + SETS, "len") + [BH + "len"])
def length(it, st, args, cont, cap, c, r, p, v):
    return it.resume(st, cont, cap, it.length(st, v))


@over(names(SEQS, "get", "get_mut", "first", "last", "first_mut", "last_mut", "front", "back", "front_mut", "back_mut"))
def get(it, st, args, cont, cap, c, r, p, v):
    xs, l = elems(v), last(c)
    if l.startswith("get"):
        if args[1].k == "adt":
            b = bounds(it, st, args[1], len(xs))
            if b is None:
                return None
            return it.resume(st, cont, cap, some(ref(r, p + (("[:]", I(b[0]), I(b[1])),))) if b[0] <= b[1] <= len(xs) else NONE)
        return [o for s2, i in which(it, st, args[1], len(xs))
                for o in it.resume(s2, cont, cap, NONE if i is None else some(ref(r, p + (("[]", I(i)),))))]
    if not xs:
        return it.resume(st, cont, cap, NONE)
    return it.resume(st, cont, cap, some(ref(r, p + (("[]", I(0 if l.startswith(("first", "front")) else len(xs) - 1)),))))


@over(["core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"])
def index(it, st, args, cont, cap, c, r, p, v):
    idx = args[1]
    if v.k == "map":
        return [o for s2, i in find_key(it, st, v, deref_key(it, st, idx)) if i is not None
                for o in it.resume(s2, cont, cap, ref(r, p + (("{}", v.a[0][i][0]),)))]
    xs = elems(v)
    if idx.k == "adt":
        b = bounds(it, st, idx, len(xs))
        if b is None:
            return None
        if not (0 <= b[0] <= b[1] <= len(xs)):
            return X_panic(it, st, c)
        return it.resume(st, cont, cap, ref(r, p + (("[:]", I(b[0]), I(b[1])),)))
    out = []
    for s2, i in which(it, st, idx, len(xs)):
        if i is None:
            out += X_panic(it, s2, c)
        else:
            out += it.resume(s2, cont, cap, ref(r, p + (("[]", I(i)),)))
    return out


def X_panic(it, st, c):
    if not it.panics:
        return []
    from interp import Outcome
    it.event(st, "panic", c["p"], (), None, c["line"])
    fr = st.stack[-1]
    return [Outcome("panic", UNIT, st, (fr.fn["u"], fr.bb), it)]


@over(names(SEQS, "copy_from_slice", "clone_from_slice"))
def copy_from(it, st, args, cont, cap, c, r, p, v):
    _, _, w = loc(it, st, args[1])
    ws = elems(w)
    if ws is None or len(ws) != len(elems(v)):
        return None
    it.store(st, r, p, L(*ws))
    return it.resume(st, cont, cap, UNIT)


@over(names(SEQS, "contains"))
def contains(it, st, args, cont, cap, c, r, p, v):
    k = deref_key(it, st, args[1])
    out, states = [], [st]
    for x in elems(v):
        nxt = []
        for s in states:
            for s2, b in it.split_bool(s, X.equal(it, s, X.strip(it, s, x, ""), k, (c["g"] or [""])[0])):
                if b:
                    out += it.resume(s2, cont, cap, TRUE)
                else:
                    nxt.append(s2)
        states = nxt
    for s in states:
        out += it.resume(s, cont, cap, FALSE)
    return out


@over(names(SEQS, "retain", "retain_mut") + names(MAPS + SETS, "retain"))
def retain(it, st, args, cont, cap, c, r, p, v):
    """decided element by element on the original, then stored"""
    n = len(v.a[0]) if v.k == "map" else len(elems(v))

    def go(s, i, kept):
        if i == n:
            cur = it.load(s, r, p)
            if v.k == "map":
                it.store(s, r, p, mk("map", tuple(cur.a[0][j] for j in kept)))
            else:
                it.store(s, r, p, L(*[elems(cur)[j] for j in kept]))
            return it.resume(s, cont, cap, UNIT)
        s.ctr += 1
        if v.k == "map":
            kk = v.a[0][i][0]
            a = [cellof(it, s, kk)]
            if c["p"].startswith(MAPS):
                a.append(ref(r, p + (("{}", kk),)))
        else:
            a = [ref(r, p + (("[]", I(i)),))]
        return it.call_closure(s, args[1], a, k2, (i, kept), c["line"])

    def k2(s, b, i, kept):
        out = []
        for s2, t in it.split_bool(s, b):
            out += go(s2, i + 1, kept + (i,) if t else kept)
        return out
    return go(st, 0, ())


def sort_by(less):
    """insertion sort; less(st, a, b, k) calls k(st, bool)"""
    def f(it, st, args, cont, cap, c, r, p, v):
        xs = elems(v)
        if len(xs) > 10:
            return None

        def place(s, done, todo):
            if not todo:
                it.store(s, r, p, L(*done))
                return it.resume(s, cont, cap, UNIT)
            return probe(s, done, todo, len(done))

        def probe(s, done, todo, j):
            if j == 0:
                return place(s, (todo[0],) + done, todo[1:])
            s.ctr += 1
            return less(it, s, args, c, todo[0], done[j - 1], k, (done, todo, j))

        def k(s, lt, done, todo, j):
            if lt:
                return probe(s, done, todo, j - 1)
            return place(s, done[:j] + (todo[0],) + done[j:], todo[1:])
        return place(st, (), tuple(xs))
    return f


def less_ord(it, st, args, c, a, b, k, cap):
    ty = (c["g"] or [""])[0]
    out = []
    for s2, w in X.order(it, st, a, b, ty):
        out += k(s2, w < 0, *cap)
    return out


def less_cmp(it, st, args, c, a, b, k, cap):
    def k2(s, v, *cap):
        out = []
        for s2, n, _ in it.cases(s, v, X.ORD):
            out += k(s2, n == "Less", *cap)
        return out
    return it.call_closure(st, args[1], [cellof(it, st, a), cellof(it, st, b)], k2, cap, c["line"])


def less_key(it, st, args, c, a, b, k, cap):
    def k1(s, ka, *cap):
        s.ctr += 1
        return it.call_closure(s, args[1], [cellof(it, s, b)], k2, (ka,) + cap, c["line"])

    def k2(s, kb, ka, *cap):
        out = []
        for s2, w in X.order(it, s, ka, kb, (c["g"] + ("", ""))[1] if c["g"] else ""):
            out += k(s2, w < 0, *cap)
        return out
    return it.call_closure(st, args[1], [cellof(it, st, a)], k1, cap, c["line"])


for base in ("alloc::slice::<impl [T]>::", SL):
    over([base + "sort", base + "sort_unstable"])(sort_by(less_ord))
    over([base + "sort_by", base + "sort_unstable_by"])(sort_by(less_cmp))
    over([base + "sort_by_key", base + "sort_unstable_by_key", base + "sort_by_cached_key"])(sort_by(less_key))


def dedup_by(same):
    """each element is compared with the last one kept"""
    def f(it, st, args, cont, cap, c, r, p, v):
        xs = elems(v)
        if len(xs) > 10:
            return None

        def go(s, kept, i):
            if i == len(xs):
                it.store(s, r, p, L(*kept))
                return it.resume(s, cont, cap, UNIT)
            if not kept:
                return go(s, (xs[i],), i + 1)
            s.ctr += 1
            return same(it, s, args, c, xs[i], kept[-1], k, (kept, i))

        def k(s, dup, kept, i):
            return go(s, kept if dup else kept + (xs[i],), i + 1)
        return go(st, (), 0)
    return f


def same_eq(it, st, args, c, a, b, k, cap):
    out = []
    for s2, t in it.split_bool(st, X.equal(it, st, a, b, (c["g"] or [""])[0])):
        out += k(s2, t, *cap)
    return out


def same_by(it, st, args, c, a, b, k, cap):
    def k2(s, v, *cap):
        out = []
        for s2, t in it.split_bool(s, v):
            out += k(s2, t, *cap)
        return out
    return it.call_closure(st, args[1], [cellof(it, st, a), cellof(it, st, b)], k2, cap, c["line"])


def same_key(it, st, args, c, a, b, k, cap):
    def k1(s, ka, *cap):
        s.ctr += 1
        return it.call_closure(s, args[1], [cellof(it, s, b)], k2, (ka,) + cap, c["line"])

    def k2(s, kb, ka, *cap):
        out = []
        for s2, t in it.split_bool(s, X.equal(it, s, ka, kb, (c["g"] or [""])[-1])):
            out += k(s2, t, *cap)
        return out
    return it.call_closure(st, args[1], [cellof(it, st, a)], k1, cap, c["line"])


for n, f in (("dedup", same_eq), ("dedup_by", same_by), ("dedup_by_key", same_key)):
    over(names(SEQS, n))(dedup_by(f))


# ---------------------------------------------------------------- maps and sets
def deref_key(it, st, k):
    n = 0
    while k.k == "ref" and n < 4:
        k = it.deref(st, k)
        n += 1
    return k


def find_key(it, st, m, k):
    """fork over which entry (index) has key k; None = absent"""
    k = deref_key(it, st, k)
    for i, (x, _) in enumerate(m.a[0]):
        if deref_key(it, st, x) is k:
            return [(st, i)]
    out, states = [], [st]
    for i, (x, _) in enumerate(m.a[0]):
        nxt = []
        for s in states:
            for s2, b in it.split_bool(s, X.equal(it, s, deref_key(it, s, x), k, None)):
                if b:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        states = nxt
    return out + [(s, None) for s in states]


def put(it, st, r, p, m, i, k, v):
    es = list(m.a[0])
    if i is None:
        if k.k == "i" and all(e[0].k == "i" for e in es):
            es.append((k, v))
            es.sort(key=lambda e: e[0].a[0])
        else:
            es.append((k, v))
    else:
        es[i] = (es[i][0], v)
    it.store(st, r, p, mk("map", tuple(es)))


ismap = lambda v: v.k == "map"


@over(names(MAPS, "get", "get_mut", "contains_key", "get_key_value"), ismap)
def mget(it, st, args, cont, cap, c, r, p, v):
    out = []
    for s2, i in find_key(it, st, v, args[1]):
        x = None if i is None else ref(r, p + (("{}", v.a[0][i][0]),))
        if last(c) == "get_key_value" and i is not None:
            x = tup(cellof(it, s2, v.a[0][i][0]), x)
        out += it.resume(s2, cont, cap, I(i is not None) if last(c) == "contains_key" else NONE if i is None else some(x))
    return out


@over(names(SETS, "contains", "get"), ismap)
def scontains(it, st, args, cont, cap, c, r, p, v):
    out = []
    for s2, i in find_key(it, st, v, args[1]):
        out += it.resume(s2, cont, cap, I(i is not None) if last(c) == "contains" else NONE if i is None else some(cellof(it, s2, v.a[0][i][0])))
    return out


@over(names(MAPS, "insert"), ismap)
def minsert(it, st, args, cont, cap, c, r, p, v):
    out = []
    for s2, i in find_key(it, st, v, args[1]):
        put(it, s2, r, p, v, i, args[1], args[2])
        out += it.resume(s2, cont, cap, NONE if i is None else some(v.a[0][i][1]))
    return out


@over(names(SETS, "insert", "replace"), ismap)
def sinsert(it, st, args, cont, cap, c, r, p, v):
    out = []
    for s2, i in find_key(it, st, v, args[1]):
        if i is None:
            put(it, s2, r, p, v, i, args[1], UNIT)
        out += it.resume(s2, cont, cap, I(i is None))
    return out


@over(names(MAPS, "remove", "remove_entry") + names(SETS, "remove", "take"), ismap)
def mremove(it, st, args, cont, cap, c, r, p, v):
    out = []
    isset = c["p"].startswith(SETS)
    for s2, i in find_key(it, st, v, args[1]):
        if i is not None:
            it.store(s2, r, p, mk("map", v.a[0][:i] + v.a[0][i + 1:]))
        if isset and last(c) == "remove":
            x = I(i is not None)
        elif i is None:
            x = NONE
        else:
            k, w = v.a[0][i]
            x = some(tup(k, w) if last(c) == "remove_entry" else k if isset else w)
        out += it.resume(s2, cont, cap, x)
    return out


@over(names(SEQS, "reserve", "reserve_exact", "shrink_to_fit"))
def vroom(it, st, args, cont, cap, c, r, p, v):
    return it.resume(st, cont, cap, UNIT)


@over(names(MAPS + SETS, "reserve", "shrink_to_fit"), ismap)
def mroom(it, st, args, cont, cap, c, r, p, v):
    return it.resume(st, cont, cap, UNIT)


@over(names(MAPS + SETS, "clear"), ismap)
def mclear(it, st, args, cont, cap, c, r, p, v):
    it.store(st, r, p, M())
    return it.resume(st, cont, cap, UNIT)


@over(names(MAPS + SETS, "is_empty") + names(SEQS, "is_empty") + [BH + "is_empty"])
def is_empty(it, st, args, cont, cap, c, r, p, v):
    return it.resume(st, cont, cap, I(it.length(st, v) is I(0)))


ENTRY = "std::collections::hash::map::Entry"


@over(names(MAPS, "entry"), ismap)
def entry(it, st, args, cont, cap, c, r, p, v):
    out = []
    for s2, i in find_key(it, st, v, args[1]):
        e = mk("entry", ref(r, p), args[1] if i is None else v.a[0][i][0], I(i is not None))
        out += it.resume(s2, cont, cap, e)
    return out


def entry_get(it, st, e):
    m, k, present = e.a
    return ref(m.a[0], m.a[1] + (("{}", k),)), present is TRUE


def entry_fn(name):
    def f(it, st, args, cont, cap, c):
        e = args[0]
        while e.k == "ref":
            e = it.deref(st, e)
        if e.k != "entry":
            return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])
        m, k, present = e.a
        if name in ("insert", "remove", "remove_entry", "get", "get_mut", "into_mut", "insert_entry", "into_key"):
            (r, p), here = m.a, entry_get(it, st, e)[0]
            was = it.deref(st, here) if present is TRUE else None
            if name in ("get", "get_mut", "into_mut"):
                return it.resume(st, cont, cap, here)
            if name == "into_key":
                return it.resume(st, cont, cap, k)
            if name in ("remove", "remove_entry"):
                cur = it.load(st, r, p)
                it.store(st, r, p, mk("map", tuple(x for x in cur.a[0] if x[0] is not k)))
                return it.resume(st, cont, cap, was if name == "remove" else tup(k, was))
            if present is TRUE:
                it.store(st, here.a[0], here.a[1], args[1])
                return it.resume(st, cont, cap, was)
            return k_ins(st, args[1], cont, cap, e, it=it)
        if name == "and_modify":
            if present is TRUE:
                return it.call_closure(st, args[1], [entry_get(it, st, e)[0]], lambda s, v, *cp: it.resume(s, cont, cap, e), (), c["line"])
            return it.resume(st, cont, cap, e)
        if name == "key":
            return it.resume(st, cont, cap, cellof(it, st, k))
        if present is TRUE:
            return it.resume(st, cont, cap, entry_get(it, st, e)[0])
        if name == "or_insert_with":
            return it.call_closure(st, args[1], [], k_ins, (cont, cap, e), c["line"])
        if name == "or_default":
            ty = (c["g"] + ("", "", ""))[-2] if c["g"] else ""
            ty = next((g for g in c["g"][1:] if not g.startswith("'")), "")
            return k_ins(st, default_of(it, ty, it.seq), cont, cap, e, it=it)
        return k_ins(st, args[1], cont, cap, e, it=it)

    def k_ins(st, v, cont, cap, e, it=None):
        from interp import Interp
        it = it or CUR[0]
        m, k, _ = e.a
        r, p = m.a
        put(it, st, r, p, it.load(st, r, p), None, k, v)
        return it.resume(st, cont, cap, ref(r, p + (("{}", k),)))

    def g(it, st, args, cont, cap, c):
        CUR[0] = it
        return f(it, st, args, cont, cap, c)
    return g


CUR = [None]
for e in ("std::collections::hash::map::Entry::<'a, K, V, A>::", "std::collections::hash::map::Entry::<'a, K, V>::",
          "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::", "alloc::collections::btree::map::entry::Entry::<'a, K, V>::"):
    for n in ("or_insert", "or_insert_with", "or_default", "and_modify", "key"):
        TABLE[e + n] = entry_fn(n)
    for k in ("OccupiedEntry", "VacantEntry"):
        for n in ("insert", "key", "remove", "remove_entry", "get", "get_mut", "into_mut", "into_key"):
            TABLE[e.replace("Entry::<", k + "::<") + n] = entry_fn(n)


# ---------------------------------------------------------------- construction
LISTY = ("alloc::vec::Vec<", "alloc::collections::vec_deque::VecDeque<", "alloc::collections::binary_heap::BinaryHeap<",
         "alloc::collections::linked_list::LinkedList<")
MAPY = ("std::collections::hash::map::HashMap<", "std::collections::hash::set::HashSet<", "alloc::collections::btree::map::BTreeMap<",
        "alloc::collections::btree::set::BTreeSet<")


def default_of(it, t, seq=True):
    if t in INT_BITS or t == "bool":
        return I(0)
    if t.startswith("core::option::Option"):
        return NONE
    if seq and t.startswith(LISTY):
        return L()
    if seq and t.startswith(MAPY):
        return M()
    return mk("default", t)


def new_of(v):
    def mkh(prev):
        def h(it, st, args, cont, cap, c):
            if it.seq:
                return it.resume(st, cont, cap, v)
            if prev:
                return prev(it, st, args, cont, cap, c)
            return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])
        return h
    return mkh


for b in ("alloc::vec::Vec::<T>::", "alloc::collections::vec_deque::VecDeque::<T>::", "alloc::collections::binary_heap::BinaryHeap::<T>::",
          "alloc::collections::linked_list::LinkedList::<T>::"):
    for n in ("new", "with_capacity"):
        TABLE[b + n] = new_of(L())(TABLE.get(b + n))
for b in ("std::collections::hash::map::HashMap::<K, V>::", "std::collections::hash::set::HashSet::<T>::",
          "alloc::collections::btree::map::BTreeMap::<K, V>::", "alloc::collections::btree::set::BTreeSet::<T>::"):
    for n in ("new", "with_capacity"):
        TABLE[b + n] = new_of(M())(TABLE.get(b + n))

_prev_default = TABLE["core::default::Default::default"]


def _default(it, st, args, cont, cap, c):
    t = c["g"][0] if c["g"] else ""
    if it.seq and t.startswith(LISTY + MAPY):
        return it.resume(st, cont, cap, default_of(it, t))
    return _prev_default(it, st, args, cont, cap, c)


TABLE["core::default::Default::default"] = _default

_prev_take = TABLE["core::mem::take"]


def _take(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    v = it.load(st, r, p)
    if v.k in ("list", "map"):
        it.store(st, r, p, L() if v.k == "list" else M())
        return it.resume(st, cont, cap, v)
    return _prev_take(it, st, args, cont, cap, c)


TABLE["core::mem::take"] = _take


def _into_vec(it, st, args, cont, cap, c):
    v = args[0]
    n = 0
    while v.k == "ref" and n < 3:
        v = it.deref(st, v)
        n += 1
    if v.k == "adt" and v.a[0] == "core::mem::maybe_uninit::MaybeUninit":
        v = it.proj(it.proj(v, (".", "value")), (".", "value"))
        if v.k != "undef" and elems(v) is None:
            return it.resume(st, cont, cap, v)
    xs = elems(v)
    if it.seq and xs is not None:
        return it.resume(st, cont, cap, L(*xs))
    return it.resume(st, cont, cap, args[0])


TABLE["alloc::boxed::box_assume_init_into_vec_unsafe"] = _into_vec


# ---------------------------------------------------------------- iterators over known shapes
EAGER_KEEP = ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map", "flatten", "chain", "cloned",
              "copied", "peekable", "fuse")


def seq(xs):
    return mk("iter", "seq", tuple(xs), None)


def is_conc(v):
    if v.k != "iter":
        return False
    k = v.a[0]
    if k == "seq":
        return True
    if k == "range":
        f = dict(v.a[1].a[2])
        lo, hi = f.get("start"), f.get("end", f.get("last"))
        return lo is not None and hi is not None and lo.k == "i" and hi.k == "i" and hi.a[0] - lo.a[0] <= 300
    if k == "chain":
        return is_conc(v.a[1]) and is_conc(v.a[2][0])
    if k in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map", "flatten", "peekable", "fuse",
             "cloned", "copied"):
        return is_conc(v.a[1])
    return False


def norm_range(v):
    if v.k == "iter" and v.a[0] == "range" and is_conc(v):
        f = dict(v.a[1].a[2])
        lo, hi = f["start"].a[0], f.get("end", f.get("last")).a[0]
        if "Inclusive" in v.a[1].a[0]:
            hi += 1
        return seq([I(i) for i in range(lo, hi)])
    return v


def as_iter(it, st, v, mode=None):
    """iterator over a collection value or a pointer to one; None when its shape is unknown"""
    if v.k == "iter":
        return v
    if v.k == "adt" and v.a[0].startswith("core::ops::range::"):
        return norm_range(mk("iter", "range", v, None))
    if v.k == "adt" and v.a[0] == OPTION:
        return seq([] if v.a[1] == "None" else [it.payload(v, "Some")])
    if v.k in ("ref", "deref", "arg", "fld", "r") and not conc(v):
        r, p, w = loc(it, st, v)
        if w.k == "map":
            return seq([tup(cellof(it, st, k), ref(r, p + (("{}", k),))) for k, _ in w.a[0]])
        if w.k == "adt" and w.a[0] == OPTION:
            return seq([] if w.a[1] == "None" else [ref(r, p + (("as", "Some"), (".", "0")))])
        xs = elems(w)
        return None if xs is None else seq([ref(r, p + (("[]", I(i)),)) for i in range(len(xs))])
    if v.k == "map":
        return seq([tup(k, x) for k, x in v.a[0]])
    xs = elems(v)
    return None if xs is None else seq(xs)


_prev_into = TABLE["core::iter::traits::collect::IntoIterator::into_iter"]


def own_next(it, v):
    """the `next` of a crate-local iterator type"""
    if v.k != "adt":
        return None
    m = [f for f in it.P.trait_impls.get(("core::iter::traits::iterator::Iterator", "next"), []) if f["self"].split("<")[0] == v.a[0]]
    return m[0] if len(m) == 1 else None


def _into_iter(it, st, args, cont, cap, c):
    v = args[0]
    if own_next(it, iter_loc(it, st, v)[2] if v.k == "ref" else v):
        return it.resume(st, cont, cap, v)
    g = c["g"][0] if c["g"] else ""
    if "::set::" in g or "BTreeSet" in g or "HashSet" in g:
        r, p, w = loc(it, st, v) if v.k == "ref" else (None, None, v)
        if w.k == "map":
            return it.resume(st, cont, cap, seq([cellof(it, st, k) if g.startswith("&") else k for k, _ in w.a[0]]))
    if v.k == "ref" and not g.startswith("&") and it.deref(st, v).k == "iter":
        return it.resume(st, cont, cap, v)
    i = as_iter(it, st, v) if v.k in ("ref", "list", "map") or conc(v) or (v.k == "adt" and v.a[0].startswith(("core::ops::range", "core::option"))) else None
    if i is not None:
        return it.resume(st, cont, cap, i)
    return _prev_into(it, st, args, cont, cap, c)


TABLE["core::iter::traits::collect::IntoIterator::into_iter"] = _into_iter


@over(names(SEQS, "iter", "iter_mut", "into_iter", "drain", "chunks", "windows", "chunks_exact") + names(MAPS, "iter", "iter_mut", "drain", "keys", "values", "values_mut", "into_keys",
      "into_values") + names(SETS, "iter", "drain") + [BH + "iter", BH + "drain", BH + "into_vec"] + ["core::option::Option::<T>::iter",
      "std::collections::hash::map::HashMap::<K, V>::keys"])
def iters(it, st, args, cont, cap, c, r, p, v):
    l = last(c)
    if v.k == "map":
        ks = [k for k, _ in v.a[0]]
        if c["p"].startswith(SETS):
            if l == "drain":
                it.store(st, r, p, M())
                return it.resume(st, cont, cap, seq(ks))
            return it.resume(st, cont, cap, seq([cellof(it, st, k) for k in ks]))
        if l == "keys":
            xs = [cellof(it, st, k) for k in ks]
        elif l in ("values", "values_mut"):
            xs = [ref(r, p + (("{}", k),)) for k in ks]
        elif l == "drain":
            xs = [tup(k, x) for k, x in v.a[0]]
            it.store(st, r, p, M())
        elif l == "into_values":
            xs = [x for _, x in v.a[0]]
        elif l == "into_keys":
            xs = ks
        else:
            xs = [tup(cellof(it, st, k), ref(r, p + (("{}", k),))) for k in ks]
        return it.resume(st, cont, cap, seq(xs))
    xs = elems(v)
    if l in ("into_vec",):
        return it.resume(st, cont, cap, L(*xs))
    if l in ("chunks", "windows", "chunks_exact"):
        if args[1].k != "i":
            return None
        n = args[1].a[0]
        if l == "windows":
            ys = [ref(r, p + (("[:]", I(i), I(i + n)),)) for i in range(0, len(xs) - n + 1)]
        else:
            ys = [ref(r, p + (("[:]", I(i), I(min(i + n, len(xs)))),)) for i in range(0, len(xs), n) if l == "chunks" or i + n <= len(xs)]
        return it.resume(st, cont, cap, seq(ys))
    if l == "drain":
        lo, hi = 0, len(xs)
        if len(args) > 1 and args[1].k == "adt":
            b = bounds(it, st, args[1], len(xs))
            if b is None:
                f = dict(args[1].a[2])
                h = f.get("end")
                if h is None or f.get("start", I(0)) is not I(0):
                    return None
                out = []
                for s2, i in which(it, st, h, len(xs) + 1):
                    if i is not None:
                        it.store(s2, r, p, L(*xs[i:]))
                        out += it.resume(s2, cont, cap, seq(xs[:i]))
                return out
            lo, hi = b
        it.store(st, r, p, L(*xs[:lo], *xs[hi:]))
        return it.resume(st, cont, cap, seq(xs[lo:hi]))
    return it.resume(st, cont, cap, seq([ref(r, p + (("[]", I(i)),)) for i in range(len(xs))]))


def pull(it, st, v, kont, kcap, line, back=False):
    """one step of a concrete iterator: kont(st, option, rest, *kcap)"""
    v = norm_range(v)
    kind, src, extra = v.a
    st.ctr += 1
    if kind == "seq":
        if not src:
            return kont(st, NONE, v, *kcap)
        x, rest = (src[-1], src[:-1]) if back else (src[0], src[1:])
        return kont(st, some(x), seq(rest), *kcap)
    if kind in ("peekable", "fuse"):
        return pull(it, st, src, lambda s, o, rest, *cp: kont(s, o, mk("iter", kind, rest, extra), *cp), kcap, line, back)
    if kind in ("cloned", "copied"):
        def kc(s, o, rest, *cp):
            return kont(s, NONE if o is NONE else some(it.deref(s, it.payload(o, "Some"))), mk("iter", kind, rest, extra), *cp)
        return pull(it, st, src, kc, kcap, line, back)
    if kind == "chain":
        first, second = (extra[0], src) if back else (src, extra[0])

        def kch(s, o, rest, *cp):
            if o is NONE:
                return pull(it, s, second, kont, cp, line, back)
            return kont(s, o, mk("iter", "chain", *((second, (rest,)) if back else (rest, (second,)))), *cp)
        return pull(it, st, first, kch, kcap, line, back)
    if kind == "map":
        def km(s, o, rest, *cp):
            if o is NONE:
                return kont(s, o, v, *cp)
            return it.call_closure(s, extra[0], [it.payload(o, "Some")], km2, (rest,) + cp, line)

        def km2(s, x, rest, *cp):
            return kont(s, some(x), mk("iter", "map", rest, extra), *cp)
        return pull(it, st, src, km, kcap, line, back)
    if kind in ("filter_map", "map_while"):
        def kf(s, o, rest, *cp):
            if o is NONE:
                return kont(s, o, seq(()), *cp)
            return it.call_closure(s, extra[0], [it.payload(o, "Some")], kf2, (rest,) + cp, line)

        def kf2(s, x, rest, *cp):
            out = []
            for s2, n, y in it.cases(s, x, OPTION):
                if n == "Some":
                    out += kont(s2, some(it.payload(y, "Some")), mk("iter", kind, rest, extra), *cp)
                elif kind == "map_while":
                    out += kont(s2, NONE, seq(()), *cp)
                else:
                    out += pull(it, s2, mk("iter", kind, rest, extra), kont, cp, line, back)
            return out
        return pull(it, st, src, kf, kcap, line, back)
    if kind in ("filter", "take_while", "skip_while", "inspect"):
        def kg(s, o, rest, *cp):
            if o is NONE:
                return kont(s, o, seq(()), *cp)
            e = it.payload(o, "Some")
            return it.call_closure(s, extra[0], [cellof(it, s, e, "flt")], kg2, (e, rest) + cp, line)

        def kg2(s, b, e, rest, *cp):
            out = []
            nx = mk("iter", kind, rest, extra)
            if kind == "inspect":
                return kont(s, some(e), nx, *cp)
            for s2, t in it.split_bool(s, b):
                if kind == "filter":
                    out += kont(s2, some(e), nx, *cp) if t else pull(it, s2, nx, kont, cp, line, back)
                elif kind == "take_while":
                    out += kont(s2, some(e), nx, *cp) if t else kont(s2, NONE, seq(()), *cp)
                else:
                    out += pull(it, s2, nx, kont, cp, line, back) if t else kont(s2, some(e), rest, *cp)
            return out
        return pull(it, st, src, kg, kcap, line, back)
    if kind in ("flat_map", "flatten"):
        def kx(s, o, rest, *cp):
            if o is NONE:
                return kont(s, o, seq(()), *cp)
            e = it.payload(o, "Some")
            if kind == "flatten":
                return kx2(s, e, rest, *cp)
            return it.call_closure(s, extra[0], [e], kx2, (rest,) + cp, line)

        def kx2(s, x, rest, *cp):
            nx = mk("iter", kind, rest, extra)
            if x.k == "adt" and x.a[0] in (RESULT,):
                i = seq([it.payload(x, "Ok")] if x.a[1] == "Ok" else [])
            else:
                i = as_iter(it, s, x)
            if i is None or not is_conc(i):
                if x.k not in ("iter", "list", "map", "adt"):
                    out = []
                    for s2, n, y in it.cases(s, x, OPTION):
                        out += kont(s2, some(it.payload(y, "Some")), nx, *cp) if n == "Some" else pull(it, s2, nx, kont, cp, line, back)
                    return out
                return []
            return pull(it, s, mk("iter", "chain", i, (nx,)), kont, cp, line, back)
        return pull(it, st, src, kx, kcap, line, back)
    raise AssertionError(kind)


def drain_all(it, st, v, k, kcap, line):
    """k(st, tuple of all elements, *kcap)"""
    def step(s, o, rest, acc, *cp):
        if o is NONE:
            return k(s, acc, *cp)
        return pull(it, s, rest, step, (acc + (it.payload(o, "Some"),),) + cp, line)
    return pull(it, st, v, step, ((),) + tuple(kcap), line)


def iter_loc(it, st, v):
    """where an iterator lives: (root, path, iterator)"""
    if v.k == "iter":
        return None, None, v
    n = 0
    r, p = it.target(v)
    x = it.load(st, r, p)
    while x.k == "ref" and n < 4:
        r, p = it.target(x)
        x = it.load(st, r, p)
        n += 1
    return r, p, x


def adapt(name):
    prev = TABLE.get(IT + name)

    def h(it, st, args, cont, cap, c):
        if args[0].k == "adt" and args[0].a[0].startswith("core::ops::range::"):
            w = norm_range(mk("iter", "range", args[0], None))
            args = [w, *args[1:]] if is_conc(w) else args
        r, p, v = iter_loc(it, st, args[0])
        v = norm_range(v) if v.k == "iter" else v
        if v.k == "iter" and is_conc(v):
            if r is not None and name in ("take", "skip") and args[1].k == "i" and v.a[0] == "seq":  # by_ref().take(n)
                n = args[1].a[0]
                it.store(st, r, p, seq(v.a[1][n:]))
                return it.resume(st, cont, cap, seq(v.a[1][:n]))
            if v.a[0] == "seq":
                xs = v.a[1]
                if name == "enumerate":
                    return it.resume(st, cont, cap, seq([tup(I(i), x) for i, x in enumerate(xs)]))
                if name == "rev":
                    return it.resume(st, cont, cap, seq(xs[::-1]))
                if name in ("skip", "take", "step_by"):
                    if args[1].k == "i":
                        n = args[1].a[0]
                        return it.resume(st, cont, cap, seq(xs[n:] if name == "skip" else xs[:n] if name == "take" else xs[::n]))
                    out = []
                    for s2, i in which(it, st, args[1], len(xs)):
                        i = len(xs) if i is None else i
                        out += it.resume(s2, cont, cap, seq(xs[i:] if name == "skip" else xs[:i]))
                    return out
                if name == "zip":
                    o = args[1] if args[1].k == "iter" else as_iter(it, st, args[1])
                    if o is not None and o.k == "iter":
                        o = norm_range(o)
                        if o.a[0] == "range" and dict(o.a[1].a[2]).get("start", UNIT).k == "i" and not dict(o.a[1].a[2]).get("end"):
                            n0 = dict(o.a[1].a[2])["start"].a[0]
                            o = seq([I(n0 + i) for i in range(len(xs))])
                        if is_conc(o):
                            def kz(s, ys, xs):
                                return it.resume(s, cont, cap, seq([tup(a, b) for a, b in zip(xs, ys)]))
                            return drain_all(it, st, o, kz, (xs,), c["line"])
            elif name in ("enumerate", "rev", "skip", "take", "step_by", "zip"):
                # force the lazy part (its closures run now instead of on demand)
                def kd(s, xs):
                    return h(it, s, [seq(xs)] + list(args[1:]), cont, cap, c)
                return drain_all(it, st, v, kd, (), c["line"])
            extra = tuple(args[1:]) or None
            if name == "chain":
                o = args[1] if args[1].k == "iter" else as_iter(it, st, args[1])
                if o is None:
                    return prev(it, st, args, cont, cap, c)
                extra = (o,)
            if name == "by_ref":
                return it.resume(st, cont, cap, args[0])
            return it.resume(st, cont, cap, mk("iter", name, v, extra))
        return prev(it, st, args, cont, cap, c)
    return h


for n in ("map", "filter", "filter_map", "enumerate", "zip", "rev", "cloned", "copied", "skip", "take", "chain", "peekable", "fuse",
          "inspect", "flat_map", "take_while", "skip_while", "step_by", "flatten", "map_while"):
    TABLE[IT + n] = adapt(n)


def nexter(names_, back):
    for nm in names_:
        prev = TABLE.get(nm)

        def h(it, st, args, cont, cap, c, prev=prev, nm=nm):
            r, p, v = iter_loc(it, st, args[0])
            own = own_next(it, v) if nm.endswith("::next") and r is not None else None
            if own:
                return it.enter(st, own, [ref(r, p)], cont, cap)
            if v.k == "adt" and v.a[0].startswith("core::ops::range::"):
                w = norm_range(mk("iter", "range", v, None))
                if is_conc(w):
                    v = w
            if v.k == "iter" and is_conc(v) and r is not None:
                def k(s, o, rest):
                    if not nm.endswith("peek"):
                        it.store(s, r, p, rest)
                    else:
                        if o is not NONE:
                            o = some(cellof(it, s, it.payload(o, "Some")))
                    return it.resume(s, cont, cap, o)
                return pull(it, st, v, k, (), c["line"], back)
            return prev(it, st, args, cont, cap, c)
        TABLE[nm] = h


nexter([IT + "next", "core::iter::adapters::peekable::Peekable::<I>::peek"] if "core::iter::adapters::peekable::Peekable::<I>::peek" in TABLE
       else [IT + "next"], False)
nexter(["core::iter::traits::double_ended::DoubleEndedIterator::next_back"], True)


def consumer(name, f, path=None):
    nm = (path or IT) + name
    prev = TABLE.get(nm)

    def h(it, st, args, cont, cap, c):
        r, p, v = iter_loc(it, st, args[0])
        if v.k == "deref" and v.a[0].k == "adt":
            r, v = None, v.a[0]
        if v.k == "adt" and v.a[0].startswith("core::ops::range::"):
            v = mk("iter", "range", v, None)
        if v.k == "iter" and is_conc(v):
            v = norm_range(v)
            def done(s, x, rest=seq(())):
                if r is not None:
                    it.store(s, r, p, rest)
                return it.resume(s, cont, cap, x)
            o = f(it, st, v, args, c, done)
            if o is not None:
                return o
        if prev is not None:
            return prev(it, st, args, cont, cap, c)
        return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])
    TABLE[nm] = h


def c_anyall(is_all):
    def f(it, st, v, args, c, done):
        def step(s, o, rest):
            if o is NONE:
                return done(s, I(is_all))
            return it.call_closure(s, args[1], [it.payload(o, "Some")], k2, (rest,), c["line"])

        def k2(s, b, rest):
            out = []
            for s2, t in it.split_bool(s, b):
                out += done(s2, I(t), rest) if t != is_all else pull(it, s2, rest, step, (), c["line"])
            return out
        return pull(it, st, v, step, (), c["line"])
    return f


consumer("all", c_anyall(True))
consumer("any", c_anyall(False))


def c_find(name):
    def f(it, st, v, args, c, done):
        def step(s, o, rest, i):
            if o is NONE:
                return done(s, NONE)
            e = it.payload(o, "Some")
            a = cellof(it, s, e, "flt") if name == "find" else e
            return it.call_closure(s, args[1], [a], k2, (e, rest, i), c["line"])

        def k2(s, b, e, rest, i):
            out = []
            if name == "find_map":
                for s2, n, y in it.cases(s, b, OPTION):
                    out += done(s2, some(it.payload(y, "Some")), rest) if n == "Some" else pull(it, s2, rest, step, (i + 1,), c["line"])
                return out
            for s2, t in it.split_bool(s, b):
                out += done(s2, some(I(i) if name == "position" else e), rest) if t else pull(it, s2, rest, step, (i + 1,), c["line"])
            return out
        return pull(it, st, v, step, (0,), c["line"])
    return f


for n in ("find", "position", "find_map"):
    consumer(n, c_find(n))


def c_foreach(it, st, v, args, c, done):
    def step(s, o, rest):
        if o is NONE:
            return done(s, UNIT)
        return it.call_closure(s, args[1], [it.payload(o, "Some")], lambda s2, b, rest: pull(it, s2, rest, step, (), c["line"]), (rest,), c["line"])
    return pull(it, st, v, step, (), c["line"])


consumer("for_each", c_foreach)


def c_fold(it, st, v, args, c, done):
    def step(s, o, rest, acc):
        if o is NONE:
            return done(s, acc)
        return it.call_closure(s, args[2], [acc, it.payload(o, "Some")], lambda s2, a, rest: pull(it, s2, rest, step, (a,), c["line"]), (rest,), c["line"])
    return pull(it, st, v, step, (args[1],), c["line"])


consumer("fold", c_fold)


def c_count(it, st, v, args, c, done):
    return drain_all(it, st, v, lambda s, xs: done(s, I(len(xs))), (), c["line"])


consumer("count", c_count)


def c_last(it, st, v, args, c, done):
    return drain_all(it, st, v, lambda s, xs: done(s, some(xs[-1]) if xs else NONE), (), c["line"])


consumer("last", c_last)


def c_nth(it, st, v, args, c, done):
    if args[1].k != "i":
        return None
    n = args[1].a[0]
    if v.a[0] == "seq":
        return done(st, some(v.a[1][n]) if n < len(v.a[1]) else NONE, seq(v.a[1][n + 1:]))
    return drain_all(it, st, v, lambda s, xs: done(s, some(xs[n]) if n < len(xs) else NONE, seq(xs[n + 1:])), (), c["line"])


consumer("nth", c_nth)


def c_sum(it, st, v, args, c, done):
    dt = c["desty"] or (c["g"] or [""])[-1]
    if dt not in INT_BITS and dt not in ("f32", "f64"):
        return None

    def k(s, xs):
        acc = I(0) if dt in INT_BITS else None
        for x in xs:
            if x.k == "ref":
                x = it.deref(s, x)
            acc = x if acc is None else (ladd(acc, x) if dt in INT_BITS else it.arith("Add", acc, x, dt))
        return done(s, acc if acc is not None else mk("float", "0"))
    return drain_all(it, st, v, k, (), c["line"])


consumer("sum", c_sum)


def c_ext(sign, mode):
    """max/min (std: max returns the last maximum, min the first minimum)"""
    def f(it, st, v, args, c, done):
        def k(s, xs):
            if not xs:
                return done(s, NONE)
            if mode == "key":
                return keys(s, xs, 0, ())
            return pick(s, xs, xs, 1, 0)

        def keys(s, xs, i, ks):
            if i == len(xs):
                return pick(s, xs, ks, 1, 0)
            s.ctr += 1
            return it.call_closure(s, args[1], [cellof(it, s, xs[i])], lambda s2, kk, xs, i, ks: keys(s2, xs, i + 1, ks + (kk,)), (xs, i, ks), c["line"])

        def pick(s, xs, ks, i, best):
            if i == len(xs):
                return done(s, some(xs[best]))
            if mode == "by":
                s.ctr += 1
                return it.call_closure(s, args[1], [cellof(it, s, xs[best]), cellof(it, s, xs[i])], k3, (xs, ks, i, best), c["line"])
            out = []
            for s2, w in X.order(it, s, deref_key(it, s, ks[best]), deref_key(it, s, ks[i]), keyty(c, mode)):
                out += pick(s2, xs, ks, i + 1, nb(w, best, i))
            return out

        def k3(s, o, xs, ks, i, best):
            out = []
            for s2, n, _ in it.cases(s, o, X.ORD):
                out += pick(s2, xs, ks, i + 1, nb({"Less": -1, "Equal": 0, "Greater": 1}[n], best, i))
            return out

        def nb(w, best, i):   # w: sign of best - candidate
            if sign > 0:
                return i if w <= 0 else best
            return i if w > 0 else best
        return drain_all(it, st, v, k, (), c["line"])
    return f


def keyty(c, mode):
    dt = c["desty"] or ""
    if mode == "" and dt.startswith("core::option::Option<"):
        t = dt[len("core::option::Option<"):-1]
        while t.startswith("&"):
            t = t[1:].lstrip()
        return t
    if mode == "key" and c["g"]:
        t = c["g"][1] if len(c["g"]) > 1 else ""
        return t if t in INT_BITS else ""
    return ""


for n, sgn in (("max", 1), ("min", -1)):
    consumer(n, c_ext(sgn, ""))
    consumer(n + "_by_key", c_ext(sgn, "key"))
    consumer(n + "_by", c_ext(sgn, "by"))


def build(it, st, t, xs, done):
    """collect elements into a collection of type t"""
    if t.startswith(MAPY):
        states = [(st, M())]
        isset = "Set<" in t.split("::")[-1] or "::set::" in t.split("<")[0]
        for x in xs:
            k, w = (x, UNIT) if isset else (it.proj(x, (".", "0")), it.proj(x, (".", "1")))
            nxt = []
            for s, m in states:
                for s2, i in find_key(it, s, m, k):
                    es = list(m.a[0])
                    if i is None:
                        es.append((k, w))
                        if all(e[0].k == "i" for e in es):
                            es.sort(key=lambda e: e[0].a[0])
                    else:
                        es[i] = (es[i][0], w)
                    nxt.append((s2, mk("map", tuple(es))))
            states = nxt
        return [o for s, m in states for o in done(s, m)]
    if t.startswith(("alloc::vec::Vec", "alloc::collections", "alloc::boxed::Box<[", "alloc::rc")):
        return done(st, L(*xs))
    return done(st, mk("coll", t, *xs))


def inner_ty(t):
    """C of Result<C, E> / Option<C>"""
    s = t[t.index("<") + 1:-1]
    d = 0
    for i, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        elif ch == "," and d == 0:
            return s[:i]
    return s


def c_collect(it, st, v, args, c, done):
    t = c["desty"] or (c["g"] or [""])[-1]
    if t.startswith((RESULT, OPTION)):
        isr = t.startswith(RESULT)
        it_ = inner_ty(t)

        def step(s, o, rest, acc):
            if o is NONE:
                return build(it, s, it_, acc, lambda s2, x: done(s2, (ok if isr else some)(x)))
            out = []
            for s2, n, y in it.cases(s, it.payload(o, "Some"), RESULT if isr else OPTION):
                if n in ("Err", "None"):
                    out += done(s2, err(it.payload(y, "Err")) if isr else NONE, rest)
                else:
                    out += pull(it, s2, rest, step, (acc + (it.payload(y, n),),), c["line"])
            return out
        return pull(it, st, v, step, ((),), c["line"])
    if not t.startswith(LISTY + MAPY + ("alloc::boxed::Box<[",)):
        return drain_all(it, st, v, lambda s, xs: done(s, mk("coll", t, *xs)), (), c["line"])
    return drain_all(it, st, v, lambda s, xs: build(it, s, t, xs, done), (), c["line"])


consumer("collect", c_collect)


def c_partition(it, st, v, args, c, done):
    def step(s, o, rest, a, b):
        if o is NONE:
            return done(s, tup(L(*a), L(*b)))
        e = it.payload(o, "Some")
        return it.call_closure(s, args[1], [cellof(it, s, e, "flt")], k2, (e, rest, a, b), c["line"])

    def k2(s, x, e, rest, a, b):
        out = []
        for s2, t in it.split_bool(s, x):
            out += pull(it, s2, rest, step, (a + (e,), b) if t else (a, b + (e,)), c["line"])
        return out
    return pull(it, st, v, step, ((), ()), c["line"])


consumer("partition", c_partition)


def c_unzip(it, st, v, args, c, done):
    return drain_all(it, st, v, lambda s, xs: done(s, tup(L(*[it.proj(x, (".", "0")) for x in xs]), L(*[it.proj(x, (".", "1")) for x in xs]))), (), c["line"])


consumer("unzip", c_unzip)


REVERSE = "core::cmp::Reverse"


# ---------------------------------------------------------------- priority queues: pop the greatest by the elements' own Ord
def heap_best(it, st, xs, c, k, kcap):
    """k(st, index of a greatest element); compares through the element type's Ord::cmp"""
    ty = (c["g"] or [""])[0]

    def pick(s, i, best):
        if i == len(xs):
            return k(s, best, *kcap)
        s.ctr += 1
        x, y, t = xs[best], xs[i], ty
        while t.startswith(REVERSE + "<") and x.k == "adt" and x.a[0] == REVERSE and y.k == "adt":
            x, y, t = y.a[2][0][1], x.a[2][0][1], t[len(REVERSE) + 1:-1]
        body = ord_method(it, t)
        if body is not None:
            a, b = cellof(it, s, x), cellof(it, s, y)
            return it.enter(s, body, [a, b], k3, (i, best))
        out = []
        for s2, w in X.order(it, s, xs[best], xs[i], ty):
            out += pick(s2, i + 1, i if w < 0 else best)
        return out

    def k3(s, o, i, best):
        out = []
        for s2, n, _ in it.cases(s, o, X.ORD):
            out += pick(s2, i + 1, i if n == "Less" else best)
        return out
    return pick(st, 1, 0)


def ord_method(it, ty):
    base = ty.split("<")[0]
    r = [f for f in it.P.trait_impls.get(("core::cmp::Ord", "cmp"), []) if f["self"].split("<")[0] == base]
    return r[0] if len(r) == 1 else None


@over([BH + "pop", BH + "peek"])
def heap_pop(it, st, args, cont, cap, c, r, p, v):
    xs = elems(v)
    if not xs:
        return it.resume(st, cont, cap, NONE)

    def k(s, i):
        if last(c) == "peek":
            return it.resume(s, cont, cap, some(ref(r, p + (("[]", I(i)),))))
        it.store(s, r, p, L(*xs[:i], *xs[i + 1:]))
        return it.resume(s, cont, cap, some(xs[i]))
    return heap_best(it, st, xs, c, k, ())


@over([BH + "into_sorted_vec"])
def heap_sorted(it, st, args, cont, cap, c, r, p, v):
    """least first"""
    if len(elems(v)) > 10:
        return None

    def go(s, left, out):
        if not left:
            return it.resume(s, cont, cap, L(*out))
        return heap_best(it, s, left, c, k, (left, out))

    def k(s, i, left, out):
        return go(s, left[:i] + left[i + 1:], (left[i],) + out)
    return go(st, tuple(elems(v)), ())


# ---------------------------------------------------------------- sequential model: locks, cells and atomics are transparent
CELL = "Cell"
LOCKS = ("lock_api::mutex::Mutex::<R, T>::", "lock_api::rwlock::RwLock::<R, T>::", "std::sync::poison::mutex::Mutex::<T>::",
         "std::sync::poison::rwlock::RwLock::<T>::", "tokio::sync::mutex::Mutex::<T>::", "tokio::sync::rwlock::RwLock::<T>::",
         "core::cell::RefCell::<T>::")


def seqonly(n, f):
    prev = TABLE.get(n)

    def h(it, st, args, cont, cap, c):
        if it.seq:
            o = f(it, st, args, cont, cap, c)
            if o is not None:
                return o
        if prev is not None:
            return prev(it, st, args, cont, cap, c)
        return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])
    TABLE[n] = h


def lock_new(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, adt(CELL, "", (("data", args[0]),)))


def lock_acq(it, st, args, cont, cap, c):
    r, p, v = loc(it, st, args[0])
    l = last(c)
    g = ref(r, p + ((".", "data"),))
    it.event(st, "call", "acquire:" + l, (ref(r, p),), g, c["line"])
    if c["p"].startswith("std::sync"):
        g = ok(g)
    if l.startswith("try_"):
        g = ok(g) if c["p"].startswith(("tokio", "std")) else some(g)
    if c["p"].startswith("tokio") and not l.startswith("try_"):
        g = mk("ready", g)
    return it.resume(st, cont, cap, g)


def lock_into(it, st, args, cont, cap, c):
    v = args[0]
    x = it.proj(v, (".", "data"))
    return it.resume(st, cont, cap, ok(x) if c["p"].startswith("std::sync") else x)


for b in LOCKS:
    seqonly(b + "new", lock_new)
    for n in ("lock", "read", "write", "try_lock", "try_read", "try_write", "borrow", "borrow_mut", "upgradable_read", "lock_arc", "read_arc", "write_arc",
              "read_recursive", "get_mut", "lock_owned", "read_owned", "write_owned"):
        seqonly(b + n, lock_acq)
    seqonly(b + "into_inner", lock_into)

ATOM = ["core::sync::atomic::Atomic::<%s>::" % t for t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool")]


def at_loc(it, st, a):
    r, p, v = loc(it, st, a)
    return r, p + ((".", "v"),)


def at_new(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, adt("Atomic", "", (("v", args[0]),)))


def at_op(it, st, args, cont, cap, c):
    l = last(c)
    r, p = at_loc(it, st, args[0])
    old = it.load(st, r, p)
    ty = c["p"].split("<")[1].split(">")[0]
    if ty[0] == "u" and old.k not in ("i", "lin"):
        it.nonneg.add(old)
    if l == "load":
        return it.resume(st, cont, cap, old)
    if l == "into_inner":
        return it.resume(st, cont, cap, it.proj(args[0], (".", "v")))
    if l == "store":
        new, res = args[1], UNIT
    elif l == "swap":
        new, res = args[1], old
    elif l == "fetch_add":
        new, res = ladd(old, args[1]), old
    elif l == "fetch_sub":
        new, res = ladd(old, args[1], -1), old
    elif l in ("fetch_max", "fetch_min"):
        out = []
        for s2, b in it.split_bool(st, it.cmp("Lt" if l.endswith("max") else "Gt", old, args[1], ty)):
            if b:
                it.store(s2, r, p, args[1])
            out += it.resume(s2, cont, cap, old)
        return out
    elif l in ("compare_exchange", "compare_exchange_weak"):
        out = []
        for s2, b in it.split_bool(st, it.arith("Eq", old, args[1], "bool") if ty == "bool" else it.cmp("Eq", old, args[1], ty)):
            if b:
                it.store(s2, r, p, args[2])
                it.event(s2, "store", "atomic", (ref(r, p), args[2]), None, c["line"])
            out += it.resume(s2, cont, cap, ok(old) if b else err(old))
        return out
    elif l in ("fetch_or", "fetch_and", "fetch_xor"):
        op = {"fetch_or": "BitOr", "fetch_and": "BitAnd", "fetch_xor": "BitXor"}[l]
        new, res = it.arith(op, old, args[1], ty), old
    else:
        return None
    it.store(st, r, p, new)
    it.event(st, "store", "atomic", (ref(r, p), new), None, c["line"])
    return it.resume(st, cont, cap, res)


for b in ATOM:
    seqonly(b + "new", at_new)
    for n in ("load", "store", "swap", "fetch_add", "fetch_sub", "fetch_max", "fetch_min", "compare_exchange", "compare_exchange_weak", "fetch_or",
              "fetch_and", "fetch_xor", "into_inner"):
        seqonly(b + n, at_op)


def _from_elem(it, st, args, cont, cap, c):
    if it.seq and args[1].k == "i" and 0 <= args[1].a[0] <= 4096:
        return it.resume(st, cont, cap, L(*[args[0]] * args[1].a[0]))
    return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])


TABLE["alloc::vec::from_elem"] = _from_elem
