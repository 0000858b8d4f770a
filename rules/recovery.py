"""Recovery: what the log and whatever pages reached the disk bring back."""
import itertools
from interp import *
from colls import L, elems
from ctx import sym, unit, last, Session
from prog import AnchorError
from rules.wal import Log, REC, RTY, LOGM, log_state, deep, field
from rules.txn import lockcell
from rules.pages import Codec, TP, META

LRM = "recovery::log_recovery::LogRecoveryManager"
MAX = (1 << 64) - 1
RECLEN = 24

# B begin, I insert, U update, D delete, N new page, C commit, A abort; rows x y are there at the start, the others are inserted
PLACE = {"x": (0, 0), "y": (1, 0), "z": (0, 1), "w": (1, 1), "n": (2, 0), "m": (2, 1)}
HISTORIES = [
    "B1 Ux1 C1",
    "B1 Ux1 Ux1 A1",
    "B1 Ux1 Dx1 C1",
    "B1 Dx1 A1 B2 Ux2 C2",
    "B1 Ux1 A1 B2 Ux2 C2 B3 Ux3",
    "B1 Ux1 C1 B2 Ux2 Ux2",
    "B1 Iz1 Uz1 C1 B2 Dz2",
    "B1 Iz1 A1 B2 Iw2 C2",
    "B1 Iz1 Uz1 Dz1",
    "B1 B2 Ux1 Uy2 Ux1 Uy2 C2",
    "B1 B2 Ux1 Uy2 C1 Uy2 A2",
    "B2 B1 Ux1 Dy2 A1 Ux2 C2",
    "B1 Ux1 Uy1 C1 B2 Uy2 A2 B3 Dx3 C3",
    "B1 N1 In1 C1 B2 Un2 Im2",
    "B1 N1 In1 Ux1",
    "B1 Dx1 C1 B2 Dy2",
    "B1 C1 B2 A2 B3",
    "B1 Ux1 Uy1 Dx1 A1",
]
DEEP = [
    "B1 B2 B3 Ux1 Uy2 Iz3 C1 A2 B4 Ux4 Uy4 C3 Dz4",
    "B1 Iz1 C1 B2 Dz2 A2 B3 Uz3 C3 B4 Dz4",
    "B1 Ux1 A1 B2 Ux2 A2 B3 Ux3 C3",
    "B1 Iz1 Iw1 Uz1 C1 B2 Uw2 Dz2 Ux2",
    "B1 B2 Iz1 Iw2 A1 Uw2 C2",
    "B1 Ux1 C1 B2 Dx2 A2 B3 Dx3 C3",
    "B1 Uy1 B2 Dx2 Uy1 C2 Uy1 C1 B3 Uy3 Iw3",
]


def parse(h):
    out = []
    for w in h.split():
        out.append((w[0], w[1] if w[0] in "IUD" else None, int(w[-1])))
    return out


class History:
    """transactions run on real pages, every record and every state of the pages kept"""

    def __init__(self, c, text):
        self.c, self.text, self.ops = c, text, parse(text)
        self.codec = Codec(c)
        self.names, self.recs, self.lsn = {}, [], {}
        self.s = Session(c, intercept=self.icept)
        self.f = {n: c.P.get(f"{TP}::{n}") for n in ("update_tuple", "update_tuple_meta", "get_tuple", "get_tuple_meta", "insert_tuple_with_rid")}
        self.new = c.P.method("storage::page::page_impl::Page", TP, "new")
        self.n = 0
        self.clock = 10
        self.page = {}
        for p in (0, 1):
            self.page[p] = self.s.alloc(self.blank(p))
        self.live, self.metas = {}, {}
        for r in "xy":
            self.clock += 1
            self.write("I", r, 90, self.meta(90, ts=self.clock))
        self.states = []     # after each number of operations: the pages
        self.undo = {}       # transaction -> what it replaced
        self.active, self.prev = set(), {}
        self.committed = []  # rows committed after each number of operations
        base = dict(self.live)
        self.base = base
        self.states.append(self.snap())
        self.committed.append(dict(base))
        for op in self.ops:
            self.do(op)
            self.states.append(self.snap())
            self.committed.append(dict(base))
        self.losers = []
        run = {}
        self.losers.append([])
        for i, (o, r, t) in enumerate(self.ops):
            if o in "CA":
                run.pop(t)
            else:
                run[t] = 1
            self.losers.append(list(run))

    def blank(self, p):
        k, v = self.s.call(self.new, I(p))
        if k != "return":
            raise AnchorError("TablePage::new panics")
        return v

    def spare(self, p):
        v = self.blank(p)
        return freeze(self.s, v)

    def snap(self):
        return {p: freeze(self.s, self.s.load(q)) for p, q in self.page.items()}

    def meta(self, t, ts=None, deleted=False):
        return self.c.obj(META, "m", creator_txn_id=I(t), commit_timestamp=some(I(ts)) if ts is not None else NONE, deleted=I(int(deleted)), undo_log_idx=NONE)

    def rid(self, r):
        p, s = PLACE[r]
        return self.c.obj("common::rid::RID", "rid", page_id=I(p), slot_num=I(s))

    def call(self, n, *a):
        k, v = self.s.call(self.f[n], *a)
        if k != "return" or v.k != "adt" or v.a[1] != "Ok" and v.a[1] != "Some":
            raise AnchorError(f"recovery history {self.text}: the page refuses {n}: {show(v)[:80]}")
        return v

    def write(self, op, r, t, meta, name=None):
        """one change to the page; the row's value"""
        q = self.page[PLACE[r][0]]
        if name is None:
            name = self.codec.name()
            tu = self.codec.tuple(name, 20 + 7 * (len(self.codec.size) % 4), self.rid(r))
        else:
            tu = self.tuple(name, r)
        if op == "I":
            self.call("insert_tuple_with_rid", q, self.s.alloc(meta), self.s.alloc(tu), self.rid(r))
        elif op == "U":
            self.call("update_tuple", q, meta, self.s.alloc(tu), self.rid(r))
        else:
            self.call("update_tuple_meta", q, meta, self.s.alloc(self.rid(r)))
        self.metas[r] = meta
        self.live[r] = None if op == "D" else name
        return name

    def tuple(self, name, r):
        return self.c.obj("storage::table::tuple::Tuple", name, values=L(sym(name)), rid=self.rid(r))

    def log(self, f, t, *a):
        k, v = self.s.call(self.c.P.get(REC + "::" + f), I(t), I(self.prev.get(t, MAX)), *a)
        if k != "return":
            raise AnchorError(f"{f} panics")
        n = len(self.recs)
        o = self.s.o.interp
        v = adt(v.a[0], v.a[1], tuple((k, lsn_of(x, n)) if k == "lsn" else (k, x) for k, x in v.a[2]))
        self.recs.append(v)
        self.prev[t] = n

    def do(self, op):
        o, r, t = op
        ty = lambda x: unit(RTY, x)
        if o == "B":
            self.undo[t] = []
            self.log("new_transaction_record", t, ty("Begin"))
        elif o == "N":
            p = max(self.page) + 1
            self.page[p] = self.s.alloc(self.blank(p))
            self.log("new_page_record", t, ty("NewPage"), I(p - 1), I(p))
        elif o == "I":
            self.undo[t].append((r, None, None))
            name = self.write("I", r, t, self.meta(t))
            self.log("new_insert_delete_record", t, ty("Insert"), self.rid(r), self.s.alloc(self.tuple(name, r)))
        elif o == "U":
            old = self.live[r]
            self.undo[t].append((r, old, self.metas[r]))
            name = self.write("U", r, t, self.meta(t))
            self.log("new_update_record", t, ty("Update"), self.rid(r), self.s.alloc(self.tuple(old, r)), self.s.alloc(self.tuple(name, r)))
        elif o == "D":
            old = self.live[r]
            self.undo[t].append((r, old, self.metas[r]))
            self.write("D", r, t, self.meta(t, deleted=True), old)
            self.log("new_insert_delete_record", t, ty("MarkDelete"), self.rid(r), self.s.alloc(self.tuple(old, r)))
        elif o == "C":
            self.log("new_transaction_record", t, ty("Commit"))
            self.clock += 1
            for r in dict.fromkeys(u[0] for u in self.undo[t]):
                self.call("update_tuple_meta", self.page[PLACE[r][0]], self.restamp(r), self.s.alloc(self.rid(r)))
                self.base[r] = self.live[r]
        elif o == "A":
            for r, old, m in reversed(self.undo[t]):
                if old is None:
                    self.clock += 1
                    self.write("D", r, t, self.meta(t, ts=self.clock, deleted=True), self.live[r])
                else:
                    self.write("U", r, t, m, old)
            self.log("new_transaction_record", t, ty("Abort"))

    def restamp(self, r):
        m = self.metas[r]
        self.metas[r] = adt(m.a[0], m.a[1], tuple((k, some(I(self.clock))) if k == "commit_timestamp" else (k, x) for k, x in m.a[2]))
        return self.metas[r]

    def icept(self, it, st, p, r, u, args, line):
        if p.startswith("postcard::") and last(p).startswith("to_"):
            v = deep(it, st, args[0])
            if v.k == "adt" and v.a[0] == REC:
                return [(st, ok(L(I(1), I(2))))]
        return self.codec(it, st, p, r, u, args, line)


def lsn_of(cellv, n):
    return adt(cellv.a[0], cellv.a[1], tuple((k, I(n)) for k, x in cellv.a[2])) if cellv.k == "adt" else I(n)


class Restart:
    """the database opened again: the log's first records and some state of every page"""

    def __init__(self, H, recs, pages, extra=()):
        self.H, self.c = H, H.c
        self.recs = list(recs)
        self.log = Log(H.c, [("rec", RECLEN)] * len(self.recs))
        self.log.obj = lambda name: self.recs[int(name[1:])]
        self.sent, self.no_page = [], []
        self.fresh = {p: H.spare(p) for p in range(len(pages), 4)} if not extra else extra
        self.s = Session(H.c, intercept=self.icept)
        self.page = {p: thaw(self.s, v) for p, v in pages.items()}
        self.spare = {p: thaw(self.s, v) for p, v in self.fresh.items()}
        self.lst, self.lm = log_state(H.c, self.s)
        self.cell = self.s.alloc(lockcell(self.lm_value()))
        self.me = self.s.alloc(H.c.obj(LRM, "lrm", disk_manager=sym("disk"), log_manager=self.cell, bpm=sym("bpm")))

    def lm_value(self):
        return self.s.mem[self.lm.a[0]]

    def icept(self, it, st, p, r, u, args, line):
        n = last(p)
        q = r or p
        if n == "try_send":
            self.sent.append(deep(it, st, args[1]))
            return [(st, ok(UNIT))]
        if "buffer_pool_manager_async::BufferPoolManager" in q:
            if n.startswith("fetch_page"):
                pid = args[1]
                if pid.k != "i":
                    raise AnchorError(f"recovery fetches page {show(pid)}")
                g = self.page.get(pid.a[0])
                v = NONE if g is None else some(mk("pageguard", pid.a[0]))
                return [(st, mk("ready", v) if n.endswith("async") else v)]
            if n.startswith("new_page"):
                pid = max(self.page) + 1
                if pid not in self.spare:
                    raise AnchorError("recovery makes more pages than the log names")
                self.page[pid] = self.spare[pid]
                return [(st, some(mk("pageguard", pid)))]
            if n.startswith(("flush", "write_page")):
                return [(st, mk("ready", ok(UNIT)) if n.endswith("async") else ok(UNIT))]
        if "PageGuard" in q and n in ("read", "write"):
            g = deep(it, st, args[0])
            return [(st, self.page[g.a[0]])]
        v = self.log.icept(it, st, p, r, u, args, line)
        if v is not None and not (p.startswith("postcard::") and n == "from_bytes" and v[0][1].k == "adt" and v[0][1].a[1] == "Err"):
            return v
        return self.H.icept(it, st, p, r, u, args, line)

    def run(self, f):
        return self.s.call(f, self.me)

    def rows(self):
        """row -> its value, None when a reader finds none, or a complaint"""
        out = {}
        for r, (p, slot) in PLACE.items():
            if p not in self.page:
                out[r] = None
                continue
            k, v = self.s.call(self.H.f["get_tuple"], self.page[p], self.s.alloc(self.H.rid(r)), TRUE)
            if k != "return":
                out[r] = k
            elif v.a[1] == "Err":
                out[r] = None
            else:
                it = self.s.o.interp
                m, t = it.proj(v.a[2][0][1], (".", "0")), it.proj(v.a[2][0][1], (".", "1"))
                g = lambda n: it.proj(m, (".", n))
                if g("commit_timestamp") == NONE:
                    out[r] = "no version a new reader could see"
                elif g("deleted") == I(1):
                    out[r] = None
                else:
                    out[r] = elems(it.proj(t, (".", "values")))[0].a[1]
        return out

    def pages(self):
        return {p: freeze(self.s, self.s.load(q)) for p, q in self.page.items()}


def one(c, text):
    H = History(c, text)
    f = c.P.get(LRM + "::start_recovery")
    n = len(H.ops)
    full = c.tier == "thorough"
    for l in range(n + 1):
        # the states each page had on the disk after some prefix of the logged operations
        choice = []
        for p in sorted(H.states[l]):
            seen = []
            for k in range(l, -1, -1):
                v = H.states[k].get(p)
                if v not in seen:
                    seen.append(v)
            choice.append(seen)
        combos = list(itertools.product(*choice))
        for j, vs in enumerate(combos):
            have = []
            for v in vs:
                if v is None:
                    break
                have.append(v)
            if any(v is not None for v in vs[len(have):]):
                continue
            check(c, H, f, l, {p: v for p, v in enumerate(have)}, f"recover:{text}:{l}:{j}", full or j in (0, len(combos) - 1))


def freeze(s, v):
    """a page with what it owns, apart from the store it lives in"""
    return adt(v.a[0], v.a[1], tuple((k, mk("boxed", s.load(x)) if x.k == "ref" else x) for k, x in v.a[2]))


def thaw(s, v):
    return s.alloc(adt(v.a[0], v.a[1], tuple((k, s.alloc(x.a[0]) if x.k == "boxed" else x) for k, x in v.a[2])))


def names(ops):
    word = {"B": "begins", "I": "inserts", "U": "updates", "D": "deletes", "N": "adds a page", "C": "commits", "A": "aborts"}
    return ", ".join(f"{t} {word[o]}{' ' + r if r else ''}" for o, r, t in ops)


def check(c, H, f, l, pages, key, again):
    what = f"log of ({names(H.ops[:l])})" if l else "an empty log"
    want = H.committed[l]

    def verify(R, k, v, key, what, losers):
        good = k == "return" and v.k == "adt" and v.a[1] == "Ok"
        if not c.require(good, key + ":end", f"{what}: recovery ends with {k if k != 'return' else show(v)[:80]}", f):
            return False
        rows = R.rows()
        bad = {r: x for r, x in rows.items() if x != want.get(r)}
        c.require(not bad, key + ":rows", f"{what}: after recovery row " + "; row ".join(
            f"{r} {'reads ' + show_row(H, x) + ' instead of ' + show_row(H, want.get(r))}" for r, x in bad.items()), f, what="recovered databases")
        it, st = R.s.o.interp, R.s.o.state
        g = lambda x, n: it.proj(x, (".", n))
        lsn = lambda x: it.proj(g(x, "lsn"), (".", "v")).a[0]
        top = max([lsn(x) for x in R.recs] + [-1])
        ab = [g(x, "txn_id").a[0] for x in R.sent if g(x, "log_record_type") == unit(RTY, "Abort")]
        c.require(sorted(ab) == sorted(losers) and len(R.sent) == len(ab), key + ":aborts", f"{what}: recovery logs the end of transactions {sorted(ab)}; {sorted(losers) or 'none'} were running", f, what="losers ended in the log")
        ls = [lsn(x) for x in R.sent]
        nxt = field(it, st, R.lst, "next_lsn")
        c.require(all(x > top for x in ls) and len(set(ls)) == len(ls) and nxt > max(ls + [top]), key + ":lsn", f"{what}: LSNs up to {top} are taken, recovery logs {ls} and goes on with {nxt}", f, what="LSNs continued")
        return not bad
    R = Restart(H, H.recs[:l], pages)
    first = R.fresh
    k, v = R.run(f)
    st = " and ".join(f"page {p} as of {max(i for i in range(l + 1) if H.states[i].get(p) == v)} operations" for p, v in pages.items())
    what += f", {st}"
    if not verify(R, k, v, key, what, H.losers[l]) or not again:
        return
    after, sent = R.pages(), list(R.sent)
    # recovery itself is cut short, or done twice
    for nm, recs, pg, lo in (("a crash after the pages were written and before the log", H.recs[:l], after, H.losers[l]),
                             ("a second restart", H.recs[:l] + sent, after, []),
                             ("a crash before the pages were written", H.recs[:l] + sent, pages, [])):
        if nm.startswith("a crash before") and not sent or nm.startswith("a crash after") and not sent:
            continue
        R = Restart(H, recs, pg, {p: v for p, v in {**first}.items()})
        k, v = R.run(f)
        verify(R, k, v, f"{key}:{nm}", f"{what}, then {nm}", lo)
        c.count("recoveries repeated")


def show_row(H, x):
    return "nothing" if x is None else x


def restart(c):
    """D04"""
    c.rule_text = "after recovery every row is what the committed transactions left, whatever prefix of the log and of each page's changes survived; recovery can be repeated"
    c.parallel(sorted(HISTORIES + DEEP, key=len, reverse=True), one)
    c.floor("recovered databases", 300)
    c.floor("recoveries repeated", 100)
