"""Pages: the table page's slots, page images, page guards."""
import itertools
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, cell, last, Session
from prog import AnchorError

TP = "storage::page::page_types::table_page::TablePage"
META = "storage::table::tuple::TupleMeta"
TUPLE = "storage::table::tuple::Tuple"
MAX = (1 << 64) - 1
PAGE = 4096


def varint(n):
    k = 1
    while n > 127:
        n >>= 7
        k += 1
    return k


class Codec:
    """stand-in for the tuple codec: a tuple of chosen size has opaque bytes that decode to it and nothing else does"""

    def __init__(self, c):
        self.c = c
        self.size = {}

    def name(self):
        return f"t{len(self.size)}"

    def tuple(self, name, size, rid):
        v = self.c.obj(TUPLE, name, values=L(sym(name)), rid=rid)
        self.size[name] = size
        return v

    def bytes(self, name):
        return [mk("tb", sym(name), i) for i in range(self.size[name])]

    def meta_bytes(self, it, m):
        g = lambda n: it.proj(m, (".", n))
        opt = lambda x: 1 if x.k == "adt" and x.a[1] == "None" else 1 + varint(x.a[2][0][1].a[0])
        n = varint(g("creator_txn_id").a[0]) + opt(g("commit_timestamp")) + 1 + opt(g("undo_log_idx"))
        return [mk("mb", m, i, n) for i in range(n)]

    def __call__(self, it, st, p, r, u, args, line):
        if not p.startswith("postcard::"):
            return None
        n = last(p)
        v = args[0]
        while v.k == "ref" and n.startswith("to_"):
            v = it.deref(st, v)
        if n in ("to_allocvec", "to_stdvec", "to_vec"):
            if v.k == "adt" and v.a[0] == META:
                return [(st, ok(L(*self.meta_bytes(it, v))))]
            if v.k == "adt" and v.a[0] == TUPLE:
                return [(st, ok(L(*self.bytes(elems(it.proj(v, (".", "values")))[0].a[1]))))]
            return None
        if n in ("from_bytes", "take_from_bytes"):
            xs = elems(it.deref(st, v))
            if not xs:
                return [(st, err(sym("eof")))]
            if xs[0].k == "mb":
                m, i, k = xs[0].a
                good = i == 0 and len(xs) >= k and all(xs[j] == mk("mb", m, j, k) for j in range(k))
                x, k = m, k
            elif xs[0].k == "tb":
                nm = xs[0].a[0].a[1]
                k = self.size[nm]
                good = len(xs) >= k and all(xs[j] == mk("tb", sym(nm), j) for j in range(k))
                x = self.c.obj(TUPLE, nm, values=L(sym(nm)), rid=self.c.obj("common::rid::RID", "r", page_id=I(0), slot_num=I(0)))
            else:
                good = False
            if not good:
                return [(st, err(sym("corrupt")))]
            if n == "take_from_bytes":
                root, path = v.a
                return [(st, ok(tup(x, it.slice(st, v, k, len(xs)))))] if hasattr(it, "slice") else None
            return [(st, ok(x))]
        return None


class TablePages:
    """a table page driven through its interface, next to what it should hold"""

    def __init__(self, c, big=True):
        self.c, self.codec = c, Codec(c)
        self.s = Session(c, intercept=self.codec)
        self.big = big
        self.f = {n: c.P.get(f"{TP}::{n}") for n in ("update_tuple", "update_tuple_meta", "get_tuple", "get_tuple_meta", "insert_tuple", "insert_tuple_with_rid",
                                                     "get_num_tuples", "get_num_deleted_tuples", "get_next_page_id", "get_prev_page_id", "set_next_page_id",
                                                     "set_prev_page_id", "has_space_for", "init")}
        self.new = c.P.method("storage::page::page_impl::Page", TP, "new")
        for n in ("get_page_id", "get_data", "set_data", "is_dirty", "set_dirty"):
            self.f[n] = c.P.method("storage::page::page_impl::PageTrait", TP, n)
        self.p = self.fresh(7)
        self.want, self.links, self.n, self.hist = [], [I(MAX), I(MAX)], 0, []

    def fresh(self, pid):
        k, v = self.s.call(self.new, I(pid))
        if k != "return":
            raise AnchorError("TablePage::new panics")
        return self.s.alloc(v)

    def rid(self, i, page=7):
        return self.c.obj("common::rid::RID", "rid", page_id=I(page), slot_num=I(i))

    def meta(self, deleted=False, big=None):
        self.n += 1
        big = self.big if big is None else big
        b = MAX - 1 - self.n if big else self.n
        return self.c.obj(META, "m", creator_txn_id=I(b), commit_timestamp=some(I(b)) if big else NONE, deleted=I(int(deleted)),
                          undo_log_idx=some(I(b)) if big else NONE)

    def call(self, n, *a):
        return self.s.call(self.f[n], *a)

    def okv(self, r):
        k, v = r
        return k == "return" and v.k == "adt" and v.a[1] in ("Ok", "Some")

    def insert(self, size, how="insert_tuple_with_rid", deleted=False):
        i = len(self.want)
        name = self.codec.name()
        t = self.codec.tuple(name, size, self.rid(i))
        m = self.meta(deleted)
        a = [self.p, self.s.alloc(m), self.s.alloc(t)] + ([self.rid(i)] if how.endswith("rid") else [])
        r = self.call(how, *a)
        self.hist.append(f"insert {size}")
        if self.okv(r):
            self.want.append((m, name, size))
        return r

    def update(self, i, size, deleted=False):
        name = self.codec.name()
        m = self.meta(deleted)
        t = self.codec.tuple(name, size, self.rid(i))
        r = self.call("update_tuple", self.p, m, self.s.alloc(t), self.rid(i))
        self.hist.append(f"update {i} to {size}")
        if self.okv(r):
            self.want[i] = (m, name, max(size, 0))
        return r

    def remeta(self, i, deleted):
        m = self.meta(deleted)
        r = self.call("update_tuple_meta", self.p, m, self.s.alloc(self.rid(i)))
        self.hist.append(f"mark {i} {'deleted' if deleted else 'live'}")
        if self.okv(r):
            self.want[i] = (m,) + self.want[i][1:]
        return r

    def link(self, which, pid):
        self.call(f"set_{which}_page_id", self.p, I(pid))
        self.hist.append(f"set {which} {pid}")
        self.links[which == "prev"] = I(pid)

    def problems(self, p=None):
        """what the page at p answers that differs from what it should hold"""
        p = p or self.p
        bad = []
        if self.call("get_num_tuples", p) != ("return", I(len(self.want))):
            bad.append("the number of rows")
        dele = sum(self.s.o.interp.proj(m, (".", "deleted")) == I(1) for m, _, _ in self.want)
        if self.call("get_num_deleted_tuples", p) != ("return", I(dele)):
            bad.append("the number of deleted rows")
        for j, w in enumerate(("next", "prev")):
            if self.call(f"get_{w}_page_id", p) != ("return", self.links[j]):
                bad.append(f"the {w} page")
        for i, (m, name, _) in enumerate(self.want):
            rid = self.s.alloc(self.rid(i))
            k, v = self.call("get_tuple", p, rid, TRUE)
            it = self.s.o.interp
            good = self.okv((k, v))
            if good:
                gm, gt = it.proj(v.a[2][0][1], (".", "0")), it.proj(v.a[2][0][1], (".", "1"))
                good = gm == m and elems(it.proj(gt, (".", "values"))) == (sym(name),) and it.proj(gt, (".", "rid")) == self.rid(i)
            if not good:
                bad.append(f"row {i}")
            k, v = self.call("get_tuple_meta", p, rid)
            if not (self.okv((k, v)) and v.a[2][0][1] == m):
                bad.append(f"row {i}'s metadata")
        return bad

    def image(self):
        """the page's bytes as the buffer pool writes them"""
        k, v = self.call("get_data", self.p)
        return elems(self.s.load(v))

    def reload(self):
        """a blank page of the same type given this page's bytes"""
        bs = self.image()
        q = self.fresh(0)
        k, v = self.call("set_data", q, I(0), self.s.alloc(L(*bs)))
        return q if self.okv((k, v)) else None

    def room(self):
        """how far the insertions can go: rows of one byte"""
        return None

    def fork(self):
        t = object.__new__(TablePages)
        t.__dict__.update(self.__dict__)
        t.s, t.want, t.links, t.hist = self.s.fork(), list(self.want), list(self.links), list(self.hist)
        return t

    def seen(self):
        return {i: w[2] for i, w in enumerate(self.want)}


def step(c, T, key, op, args, f, must=False, what=None):
    """one operation; every row and its metadata must read back, whatever the answer"""
    try:
        r = getattr(T, op)(*args)
    except AnchorError as e:
        raise AnchorError(f"{'; '.join(T.hist)}: {e}")
    hist = "; ".join(T.hist)
    if r[0] != "return":
        c.require(False, key, f"table page: after {hist}: {r[0]}", f, what=what)
        return False
    good = T.okv(r)
    if must:
        c.require(good, key + ":must", f"table page: {hist}: the last one is refused although it must fit", f, what="writes that must fit")
    bad = T.problems()
    return c.require(not bad, key, f"table page: after {hist} ({'accepted' if good else 'refused'}), wrong: {', '.join(bad)}", f, what=what) and good


def slots(c):
    """E01"""
    c.rule_text = "after every operation each slot reads back what was last written there; a refused operation changes nothing"
    fi, fu, fm = c.P.get(TP + "::insert_tuple_with_rid"), c.P.get(TP + "::update_tuple"), c.P.get(TP + "::update_tuple_meta")
    # short histories over rows of different sizes, with every update pattern
    for sizes in ((20, 300, 100), (100, 20, 300)):
        base = TablePages(c, big=False)
        for s in sizes:
            step(c, base, f"slots:insert:{sizes}:{s}", "insert", (s,), fi, True)
        top = [max(s, 0) for s in sizes]
        us = (5, 20, 21, 100, 299, 300, 301, 1200) if c.tier == "thorough" else (5, 21, 100, 301)
        for i in range(3):
            for s in us:
                a = base.fork()
                k1 = f"slots:{sizes}:{i}:{s}"
                oka = step(c, a, k1, "update", (i, s), fu, s <= top[i], "updates of a row")
                # deleted rows keep their place: they may come back
                for d in [x for x in range(3) if x != i] if s >= 100 else ():
                    x = base.fork()
                    step(c, x, f"{k1}:del{d}", "remeta", (d, True), fm, True)
                    step(c, x, f"{k1}:del{d}:grow", "update", (i, s), fu, s <= top[i], "updates beside a deleted row")
                    step(c, x, f"{k1}:del{d}:undo", "remeta", (d, False), fm, True)
                t1 = list(top)
                if oka:
                    t1[i] = max(t1[i], s)
                for j in range(3):
                    for s2 in (us if c.tier == "thorough" else (5, top[j], 301)):
                        b = a.fork()
                        okb = step(c, b, f"{k1}:{j}:{s2}", "update", (j, s2), fu, s2 <= t1[j], "updates of a row")
                        # the first row can always be put back
                        step(c, b, f"{k1}:{j}:{s2}:back", "update", (i, t1[i]), fu, True, "rows put back to their former size")
                        step(c, b, f"{k1}:{j}:{s2}:insert", "insert", (50,), fi, False, "inserts after updates")
    # pages filled to the brim
    for size in (1, 3, 90, 503, 1000, 2010, 4000) if c.tier == "thorough" else (90, 503, 1000, 2010, 4000):
        for how in ("insert_tuple_with_rid", "insert_tuple"):
            T = TablePages(c, big=False)
            n, before = 0, [T.fork()]
            while n < 200:
                r = T.insert(size, how)
                before = (before + [T.fork()])[-3:]
                if r[0] != "return" or not T.okv(r):
                    break
                n += 1
            key = f"slots:full:{size}:{how}"
            T.hist = [f"{n} x insert {size}", "insert of one more"]
            bad = T.problems()
            c.require(r[0] == "return" and not bad, key, f"table page: after {n} rows of {size} bytes and one refused: {r[0]}; wrong: {', '.join(bad[:4])}", fi, what="full pages")
            c.require(n > 0 or size > 3900, key + ":empty", f"an empty page refuses a row of {size} bytes", fi)
            # the largest row that still fits, then every row's metadata at its largest
            edge = []
            if how != "insert_tuple" and size in (503, 1000, 2010) and n:
                # the sizes around the largest row that fits beside n - 1 others
                lo, hi = 1, 4096
                while hi - lo > 1:
                    U = before[0].fork()
                    mid = (lo + hi) // 2
                    if U.okv(U.insert(mid)):
                        lo = mid
                    else:
                        hi = mid
                edge = [max(1, lo - 37), lo - 1, lo, hi]
            for s in edge:
                U = before[0].fork()
                step(c, U, f"{key}:last:{s}", "insert", (s,), fi, s < edge[-1], "rows at the edge of the free space")
                U.hist = [f"{len(before[0].want)} x insert {size}", f"insert {s}"]
                U.big = True
                good = True
                for i in range(len(U.want)):
                    r = U.remeta(i, i % 2 == 1)
                    good = good and r[0] == "return" and U.okv(r)
                U.hist.append("stamp every row with the largest metadata")
                bad = U.problems()
                c.require(good and not bad, f"{key}:last:{s}:meta", f"table page: after {'; '.join(U.hist[:2])}; {U.hist[-1]}: {'refused' if not good else ''} wrong: {', '.join(bad[:4])}", fm,
                          what="pages whose metadata grows to its largest")
            if n and how == "insert_tuple_with_rid":
                T.big = True
                i = n // 2
                T.hist = [f"{n} x insert {size}"]
                step(c, T, key + ":shrink", "update", (i, max(1, size // 2)), fu, True, "updates on a full page")
                step(c, T, key + ":grow", "update", (0, size + 40), fu, False, "updates on a full page")
                step(c, T, key + ":other", "update", (n - 1, size), fu, True, "updates on a full page")
                step(c, T, key + ":back", "update", (i, size), fu, True, "updates on a full page")
    # deletion and what it hides
    T = TablePages(c)
    for s in (40, 50):
        T.insert(s)
    g = T.f["get_tuple"]
    step(c, T, "slots:delete", "remeta", (0, True), fm, True)
    for allow, want in ((TRUE, True), (FALSE, False)):
        r = T.call("get_tuple", T.p, T.s.alloc(T.rid(0)), allow)
        c.require(r[0] == "return" and T.okv(r) == want, f"slots:deleted:{want}", f"a deleted row is {'hidden from' if want else 'shown to'} a reader that {'allows' if want else 'does not allow'} deleted rows", g)
    for rid, allow in ((T.rid(2), TRUE), (T.rid(9), TRUE), (T.rid(0, 8), TRUE)):
        r = T.call("get_tuple", T.p, T.s.alloc(rid), allow)
        c.require(r[0] == "return" and not T.okv(r), f"slots:absent:{show(rid)}", f"reading {show(rid)}, which does not exist, gives a row", g)
    step(c, T, "slots:redelete", "remeta", (0, True), fm, True)
    step(c, T, "slots:undelete", "remeta", (0, False), fm, True)
    step(c, T, "slots:undelete2", "remeta", (0, False), fm, True)
    step(c, T, "slots:del1", "update", (1, 50, True), fm, True)
    step(c, T, "slots:del0", "update", (0, 10, True), fm, True)
    step(c, T, "slots:live1", "update", (1, 20, False), fm, True)
    step(c, T, "slots:grow0", "update", (0, 400, False), fm, True)
    for n, a in (("remeta", (7, True)), ("update", (7, 10))):
        r = getattr(T, n)(*a)
        c.require(r[0] == "return" and not T.okv(r), f"slots:none:{n}", f"{n} of a row that does not exist is accepted", fm)
    c.floor("updates of a row", 100)
    c.floor("full pages", 10)
    c.floor("pages whose metadata grows to its largest", 9)


PT = "storage::page::page_types::"
# page type, how it is made, the change, the question whose answer must survive
OTHERS = [
    ("b_plus_tree_header_page::BPlusTreeHeaderPage", ("new_with_options", (I(3),)), ("set_root_page_id", (I(5),)), ("get_root_page_id", ())),
    ("b_plus_tree_internal_page::BPlusTreeInternalPage", ("new_with_options", (I(3), I(4), sym("cmp"))), ("insert_key_value", (sym("key"), I(5))), ("get_size", ())),
    ("b_plus_tree_leaf_page::BPlusTreeLeafPage", ("new_with_options", (I(3), I(4), sym("cmp"))), ("insert_key_value", (sym("key"), sym("value"))), ("get_size", ())),
    ("extendable_hash_table_header_page::ExtendableHTableHeaderPage", None, ("set_directory_page_id", (I(0), I(5))), ("get_directory_page_id", (I(0),))),
    ("extendable_hash_table_directory_page::ExtendableHTableDirectoryPage", None, ("set_bucket_page_id", (I(0), I(5))), ("get_bucket_page_id", (I(0),))),
    ("extendable_hash_table_bucket_page::ExtendableHTableBucketPage", None, ("set_local_depth", (I(3),)), ("get_local_depth", ())),
]


def images(c):
    """E02"""
    c.rule_text = "the bytes of a page, read back into a blank page, give every answer the page gave; a change marks the page dirty"
    base = TablePages(c, big=False)
    fs = base.f["set_data"]

    def check(T, key, mutated=True):
        hist = "; ".join(T.hist)
        bs = T.image()
        c.require(bs is not None and len(bs) == PAGE, key + ":size", f"table page: after {hist}: the image is not {PAGE} bytes", fs)
        q = T.reload()
        if not c.require(q is not None, key, f"table page: after {hist}: the page's bytes are refused when read back", fs, what="images read back"):
            return
        bad = T.problems(q)
        c.require(not bad, key, f"table page: after {hist} and a reload, wrong: {', '.join(bad[:5])}", fs, what="images read back")
        r = T.call("get_page_id", q)
        c.require(r == ("return", I(7)), key + ":id", f"table page: after {hist} and a reload, the page id is {show(r[1])}", fs)

    def dirty(T, key, op, *a):
        T.call("set_dirty", T.p, FALSE)
        r = getattr(T, op)(*a)
        d = T.call("is_dirty", T.p)
        if r is None or T.okv(r):
            c.require(d == ("return", TRUE), key + ":dirty", f"table page: {T.hist[-1]} does not mark the page dirty", fs, what="changes that mark the page dirty")
        check(T, key)
    check(base, "image:new")
    ops = [("insert", 30), ("insert", 700), ("update", 0, 10), ("update", 0, 90), ("remeta", 1, True), ("link", "next", 11), ("link", "prev", 12), ("update", 1, 700, False), ("insert", 1),
           ("remeta", 2, True), ("remeta", 0, False), ("remeta", 2, True), ("remeta", 2, False), ("update", 1, 700, False), ("link", "next", 13)]
    for order in (ops, ops[5:7] + ops[:5] + ops[7:], [("insert", 900), ("insert", 900), ("update", 0, 30), ("insert", 900), ("update", 1, 901), ("update", 0, 900), ("remeta", 2, True)]):
        for big in (False, True):
            T = TablePages(c, big=big)
            for n, op in enumerate(order):
                dirty(T, f"image:{order.index(op)}:{op}:{big}:{n}", *op)
    for size in (1, 90, 1000):
        T = TablePages(c)
        n = 0
        while n < 200 and T.okv(T.insert(size)):
            n += 1
        T.hist = [f"{n} x insert {size}"]
        check(T, f"image:full:{size}")
    # a reloaded page carries on where the other left off
    T = TablePages(c)
    for s in (30, 40):
        T.insert(s)
    T.p = T.reload()
    T.hist.append("reload")
    dirty(T, "image:reloaded:insert", "insert", 60)
    dirty(T, "image:reloaded:update", "update", 0, 80)
    # bytes that are no table page are refused
    bs = list(T.image())
    for nm, i, v in (("page type", 0, I(0)), ("page type", 0, I(5)), ("start marker", 29, I(0)), ("start marker", 32, I(1))):
        xs = list(bs)
        xs[i] = v
        q = T.fresh(0)
        r = T.call("set_data", q, I(0), T.s.alloc(L(*xs)))
        c.require(r[0] == "return" and not T.okv(r), f"image:bad:{nm}:{i}:{show(v)}", f"bytes with a wrong {nm} are accepted as a table page", fs, what="images that must be refused")
    q = T.fresh(0)
    r = T.call("set_data", q, I(1), T.s.alloc(L(*bs)))
    c.require(r[0] == "return" and not T.okv(r), "image:bad:offset", "bytes beyond the end of the page are accepted", fs)
    # the other page types: what a change leaves in the bytes
    for path, make, (setter, sargs), (getter, gargs) in OTHERS:
        p, nm = PT + path, last(path)
        s = Session(c, intercept=codec_any)
        f = member(c, p, setter)

        def fresh():
            k, v = s.call(member(c, p, make[0]), *make[1]) if make else s.call(c.P.method("storage::page::page_impl::Page", p, "new"), I(3))
            return s.alloc(v)
        a = fresh()
        s.call(f, a, *sargs)
        want = s.call(member(c, p, getter), a, *gargs)
        bs = elems(s.load(s.call(c.P.method("storage::page::page_impl::PageTrait", p, "get_data"), a)[1]))
        b = fresh()
        r = s.call(c.P.method("storage::page::page_impl::PageTrait", p, "set_data"), b, I(0), s.alloc(L(*bs)))
        got = s.call(member(c, p, getter), b, *gargs)
        c.require(r[0] == "return" and got == want, f"image:{nm}", f"{nm}: after {setter} and a reload from the page's own bytes, {getter} gives {show(got[1])} instead of {show(want[1])}", f,
                  what="other page types")
    c.floor("images read back", 30)
    c.floor("changes that mark the page dirty", 20)
    c.floor("other page types", len(OTHERS))


def member(c, ty, name):
    """ty's own function of that name"""
    m = [f for f in c.P.fn.values() if f["kind"] == "fn" and f.get("self") and f["self"].split("<")[0] == ty and last(f["p"]) == name and not f.get("trait")]
    if len(m) != 1:
        raise AnchorError(f"{ty}::{name}: {len(m)} found")
    return m[0]


def codec_any(it, st, p, r, u, args, line):
    """opaque encodings of any value that decode to it"""
    if not p.startswith("postcard::"):
        return None
    v = args[0]
    if last(p).startswith("to_"):
        while v.k == "ref":
            v = it.deref(st, v)
        return [(st, ok(L(*[mk("eb", v, i) for i in range(6)])))]
    if last(p) == "from_bytes":
        xs = elems(it.deref(st, v))
        if xs and len(xs) >= 6 and all(xs[i] == mk("eb", xs[0].a[0], i) for i in range(6)) if xs and xs[0].k == "eb" else False:
            return [(st, ok(xs[0].a[0]))]
        return [(st, err(sym("corrupt")))]
    return None
