"""Path-sensitive abstract interpreter over the compiler's MIR (the facts of facts.py).

Nothing is executed and no solver is used. A state maps memory cells to abstract values over a
finite-height domain: constants, enum variants, aggregates, references, and opaque symbols for
everything else. A branch whose condition is not decided by the state splits the state and records
the outcome as an interval fact about the (normalised) compared term, so the same test made twice,
or made through another comparison operator, is decided the second time. Calls of functions of the
crate are entered (helpers, closures and async bodies alike); everything else is an event whose
result is a fresh symbol. Loops are bounded by the number of visits of a block. States that agree
at a join are merged.

The result of `explore` is the set of abstract paths of an entry point: for each one the facts that
select it, the ordered events along it, and the returned value.
"""
import itertools
import re
import sys

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- values (hash-consed)
class V:
    __slots__ = ("k", "a", "n", "_s")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def mk(k, *a):
    key = (k,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.n = len(_tab)
        v._s = None
        _tab[key] = v
    return v


def I(n):
    return mk("i", int(n))


def S(s):
    return mk("s", s)


TRUE, FALSE = I(1), I(0)
UNINIT, MOVED = mk("uninit"), mk("moved")
UNIT = mk("adt", "tuple", "", ())


def adt(path, variant, fields):
    return mk("adt", path, variant, tuple(fields))


def some(v):
    return adt("core::option::Option", "Some", (("0", v),))


NONE = adt("core::option::Option", "None", ())


def ok(v):
    return adt("core::result::Result", "Ok", (("0", v),))


def err(v):
    return adt("core::result::Result", "Err", (("0", v),))


def tup(*vs):
    return adt("tuple", "", tuple((str(i), v) for i, v in enumerate(vs)))


def ref(root, path=()):
    return mk("ref", root, path)


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
        return str(v)
    if v._s is not None:
        return v._s
    if d > 12:
        return "…"
    k, a = v.k, v.a
    if k == "i":
        s = str(a[0])
    elif k == "s":
        s = repr(a[0])
    elif k == "adt":
        nm = a[0].split("::")[-1] + ("::" + a[1].split("::")[-1] if a[1] else "")
        s = nm + ("{" + ", ".join(f"{f}: {show(x, d+1)}" for f, x in a[2]) + "}" if a[2] else "")
    elif k == "arg":
        s = str(a[-1])
    elif k == "r":
        s = a[0].split("::")[-1] + "(" + ", ".join(show(x, d + 1) for x in a[1]) + ")"
    elif k == "fld":
        e = a[1]
        s = show(a[0], d + 1) + (f"[{show(e[1], d+1)}]" if e[0] == "[]" else f".{e[1]}" if e[0] == "." else f"<{e[1]}>")
    elif k == "deref":
        s = "*" + show(a[0], d + 1)
    elif k == "ref":
        s = "&" + show_root(a[0], d) + "".join(
            f"[{show(e[1], d+1)}]" if e[0] in ("[]", "{}", "[:]") else f".{e[1]}" if e[0] == "." else f"<{e[1]}>" for e in a[1]
        )
    elif k == "lin":
        s = "(" + " + ".join(([str(a[0])] if a[0] else []) + [(f"{c}*" if c != 1 else "") + show(t, d + 1) for t, c in a[1]]) + ")"
    elif k == "cmp":
        s = f"[{show(a[1], d+1)} {a[0]}]"
    elif k == "fn":
        s = "fn " + a[0]
    else:
        s = k + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if len(s) > 400:
        s = s[:400] + "…"
    if d == 0:
        v._s = s
    return s


def show_root(r, d=0):
    if r[0] == "T":
        return "*" + show(r[1], d + 1)
    return f"{r[0]}{r[-1]}"


def subterms(v, seen=None):
    """every V inside v"""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


# ---------------------------------------------------------------- linear integer terms
def as_lin(v):
    if v.k == "i":
        return v.a[0], {}
    if v.k == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def from_lin(c, m):
    m = {t: k for t, k in m.items() if k}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (t, k), = m.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(m.items(), key=lambda x: x[0].n)))


def ladd(a, b, s=1):
    ca, ma = as_lin(a)
    cb, mb = as_lin(b)
    for t, k in mb.items():
        ma[t] = ma.get(t, 0) + s * k
    return from_lin(ca + s * cb, ma)


def lmul(a, c):
    ca, ma = as_lin(a)
    return from_lin(ca * c, {t: k * c for t, k in ma.items()})


def split_lin(L):
    """L = c + s * t with t normalised; returns (c, s, t) (t None when L is constant)"""
    c, m = as_lin(L)
    if not m:
        return c, 0, None
    first = min(m.items(), key=lambda x: x[0].n)
    s = 1 if first[1] > 0 else -1
    t = from_lin(0, {x: k * s for x, k in m.items()})
    return c, s, t


def lnot(b):
    if b.k == "i":
        return I(0 if b.a[0] else 1)
    if b.k == "not":
        return b.a[0]
    if b.k == "cmp":
        rel, L = b.a
        if rel == "lt0":  # not L<0  ->  -L <= 0
            return mk("cmp", "le0", lmul(L, -1))
        if rel == "le0":
            return mk("cmp", "lt0", lmul(L, -1))
    return mk("not", b)


INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


_subre = re.compile(r"[A-Za-z_][A-Za-z0-9_]*(?![A-Za-z0-9_:])")


def subst(t, sub):
    if t in sub:
        return sub[t]
    return _subre.sub(lambda m: sub.get(m.group(0), m.group(0)) if t[m.start() - 1:m.start()] != ":" else m.group(0), t)


def unify(pats, names, g):
    """bindings of an impl's generic parameters from the trait reference's type arguments"""
    b = {}
    for p, x in zip(pats, g):
        if p in names:
            b[p] = x
        elif p != x and p:
            rx = re.escape(p)
            used = []
            for n in names:
                rx2 = re.sub(r"(?<![A-Za-z0-9_:])" + n + r"(?![A-Za-z0-9_:])", "(?P<" + n + ">.+)", rx, count=1)
                if rx2 != rx:
                    used.append(n)
                    rx = rx2
            m = re.fullmatch(rx, x) if used else None
            if m:
                b.update({n: m.group(n) for n in used})
    rest = [n for n in names if n not in b and n != "Self"]
    extra = list(g[len(pats):])
    b.update(dict(zip(rest, extra)))
    return b or None


def norm(v, t):
    if t in INT_BITS and t[0] == "i" and v >> (INT_BITS[t] - 1) == 1:
        return v - (1 << INT_BITS[t])
    return v


def is_int_ty(t):
    return t in INT_BITS or t == "char" or t == "bool"


STD_ENUM = {
    "core::option::Option": [("None", 0), ("Some", 1)],
    "core::result::Result": [("Ok", 0), ("Err", 1)],
    "core::ops::control_flow::ControlFlow": [("Continue", 0), ("Break", 1)],
    "core::task::poll::Poll": [("Ready", 0), ("Pending", 1)],
    "core::cmp::Ordering": [("Less", -1), ("Equal", 0), ("Greater", 1)],
    "alloc::borrow::Cow": [("Borrowed", 0), ("Owned", 1)],
    "core::ops::range::Bound": [("Included", 0), ("Excluded", 1), ("Unbounded", 2)],
    "tokio::sync::mpsc::error::TrySendError": [("Full", 0), ("Closed", 1)],
    "tokio::sync::mpsc::error::TryRecvError": [("Empty", 0), ("Disconnected", 1)],
    "std::collections::hash::map::Entry": [("Occupied", 0), ("Vacant", 1)],
    "alloc::collections::btree::map::entry::Entry": [("Vacant", 0), ("Occupied", 1)],
}
OPTION, RESULT = "core::option::Option", "core::result::Result"


BOOLISH = ("cmp", "not", "eq", "beq", "fcmp", "i")


FIDS = itertools.count(10)


class Cut(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "events", "stack", "visits", "n", "aux", "ctr", "forks", "lastf")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.events = self.events
        s.stack = list(self.stack)
        s.visits = dict(self.visits)
        s.n = self.n
        s.aux = self.aux
        s.ctr = self.ctr
        s.forks = self.forks
        s.lastf = dict(self.lastf)
        return s


class Frame:
    __slots__ = ("fn", "fid", "bb", "cont", "cap", "sub")

    def __init__(self, fn, fid, bb, cont, cap, sub=None):
        self.fn, self.fid, self.bb, self.cont, self.cap, self.sub = fn, fid, bb, cont, cap, sub


class Event:
    __slots__ = ("kind", "name", "args", "res", "fn", "line", "fid", "key", "file", "top", "extra")

    def __init__(self, kind, name, args, res, fn, line, file, fid, extra=None):
        self.kind, self.name, self.args, self.res = kind, name, args, res
        self.fn, self.line, self.file, self.fid = fn, line, file, fid
        self.extra = extra
        self.key = (kind, name, args, res, fn, line)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.key == o.key

    def __repr__(self):
        return f"{self.kind} {self.name}({', '.join(show(a) for a in self.args)}) @{self.file}:{self.line}"


class Outcome:
    __slots__ = ("kind", "value", "facts", "events", "mem", "where", "interp", "state")

    def __init__(self, kind, value, st, where, interp):
        self.kind, self.value, self.facts, self.events, self.mem = kind, value, st.facts, st.events, st.mem
        self.where = where
        self.interp = interp
        self.state = st


IGNORE_PREFIX = ("core::fmt", "alloc::fmt", "log::", "std::io::stdio::_", "tracing", "core::hint::")
PURE_CALLS = {
    "len", "get", "contains_key", "contains", "is_empty", "as_str", "first", "last", "starts_with", "ends_with",
    "to_le_bytes", "to_be_bytes", "from_le_bytes", "from_be_bytes", "peek", "front", "back", "as_secs",
    "as_millis", "as_nanos", "as_micros", "capacity", "keys", "values", "as_ptr", "size_of", "to_string", "to_vec",
    "to_uppercase", "to_lowercase", "trim", "is_nan", "abs", "as_bytes", "as_slice", "to_bits", "from_bits",
    "from_secs", "from_millis", "from_micros", "saturating_sub", "saturating_add", "saturating_mul", "wrapping_add",
    "wrapping_sub", "wrapping_mul", "floor", "ceil", "round", "trunc", "is_finite", "is_infinite", "pow", "powi", "powf",
    "max_value", "min_value", "leading_zeros", "is_power_of_two", "as_f64", "sqrt", "rem_euclid",
    "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_neg", "checked_pow",
    "try_from", "try_into", "parse", "eq_ignore_ascii_case", "is_char_boundary", "chars", "as_path", "to_owned",
    "type_name", "type_id", "ptr_eq", "strong_count", "min_by", "id",
}


class Interp:
    def __init__(self, prog, *, opaque=None, keep=None, intercept=None, max_visits=2, max_paths=20000,
                 max_depth=14, panics=False, closures_in_opaque=True, max_steps=400000, inline_drop=None,
                 dedupe=True, gc=True, only_inline=None, seq=False, max_ctr=600, sub=None):
        self.sub = sub
        self.seq, self.max_ctr = seq, max_ctr
        self.P = prog
        self.opaque = opaque or (lambda uid, fn: False)
        self.only_inline = only_inline
        self.keep = keep or (lambda e: True)
        self.intercept = intercept
        self.max_visits = max_visits
        self.max_paths = max_paths
        self.max_depth = 60 if seq else max_depth
        self.panics = panics
        self.closures_in_opaque = closures_in_opaque
        self.max_steps = max_steps
        self.inline_drop = inline_drop
        self.dedupe = dedupe
        self.gc = gc
        self.nonneg = set()
        self.discr_vals = {}
        self.steps = 0
        self.cuts = 0
        self.truncated = False
        self.entered = set()
        self._fids = {}
        self.closub = {}

    # ------------------------------------------------------------ facts
    def rng(self, st, t):
        lo, hi, ex = st.facts.get(t, (None, None, frozenset()))
        if t in self.nonneg and (lo is None or lo < 0):
            lo = 0
        return lo, hi, ex

    def isnonneg(self, t):
        if t in self.nonneg:
            return True
        if t.k == "lin":
            c, m = as_lin(t)
            return c >= 0 and all(k > 0 and x in self.nonneg for x, k in m.items())
        return False

    def possible(self, st, t):
        """finite set of possible values of t, or None"""
        lo, hi, ex = self.rng(st, t)
        dv = self.discr_vals.get(t)
        if dv is not None:
            return [x for x in dv if (lo is None or x >= lo) and (hi is None or x <= hi) and x not in ex]
        if lo is not None and hi is not None and hi - lo <= 8:
            return [x for x in range(lo, hi + 1) if x not in ex]
        return None

    def decide(self, st, b):
        if b.k == "i":
            return b.a[0] != 0
        if b.k == "not":
            r = self.decide(st, b.a[0])
            return None if r is None else not r
        if b.k == "op" and b.a[0] in ("BitAnd", "BitOr") and len(b.a) == 3 and all(x.k in BOOLISH for x in b.a[1:]):
            ds = [self.decide(st, x) for x in b.a[1:]]
            w = b.a[0] == "BitOr"
            if w in ds:
                return w
            if None not in ds:
                return not w
        if b.k == "cmp":
            rel, L = b.a
            c, s, t = split_lin(L)
            if t is None:
                return {"lt0": c < 0, "le0": c <= 0, "eq0": c == 0}[rel]
            lo, hi, ex = self.rng(st, t)
            if lo is None and self.isnonneg(t):
                lo = 0
            if rel == "eq0":
                k = -c * s
                if (lo is not None and k < lo) or (hi is not None and k > hi) or k in ex:
                    return False
                p = self.possible(st, t)
                if p is not None:
                    if k not in p:
                        return False
                    if len(p) == 1:
                        return True
                if lo is not None and lo == hi:
                    return True
                return None
            # L = c + s t ; bounds of L
            if s > 0:
                Llo = None if lo is None else c + lo
                Lhi = None if hi is None else c + hi
                if hi is not None and hi in ex:
                    Lhi -= 1
                if lo is not None and lo in ex:
                    Llo += 1
            else:
                Llo = None if hi is None else c - hi
                Lhi = None if lo is None else c - lo
                if lo is not None and lo in ex:
                    Lhi -= 1
                if hi is not None and hi in ex:
                    Llo += 1
            b0 = 0 if rel == "le0" else -1
            if Lhi is not None and Lhi <= b0:
                return True
            if Llo is not None and Llo > b0:
                return False
            return None
        lo, hi, ex = self.rng(st, b)
        if lo is not None and lo >= 1 or 0 in ex:
            return True
        if hi is not None and hi <= 0 or 1 in ex and b.k != "fld_int":
            return False
        return None

    def assume(self, st, b, truth):
        """narrow facts; False when infeasible"""
        d = self.decide(st, b)
        if d is not None:
            return d == truth
        if b.k == "not":
            return self.assume(st, b.a[0], not truth)
        if b.k == "op" and b.a[0] == ("BitAnd" if truth else "BitOr") and all(x.k in BOOLISH for x in b.a[1:]):
            return all(self.assume(st, x, truth) for x in b.a[1:])
        if b.k == "cmp":
            if not truth and b.a[0] != "eq0":
                return self.assume(st, lnot(b), True)
            rel, L = b.a
            c, s, t = split_lin(L)
            lo, hi, ex = self.rng(st, t)
            if rel == "eq0":
                k = -c * s
                if truth:
                    lo = hi = k
                else:
                    ex = ex | {k}
            else:
                b0 = 0 if rel == "le0" else -1  # c + s t <= b0
                if s > 0:
                    m = b0 - c
                    hi = m if hi is None else min(hi, m)
                else:
                    m = c - b0
                    lo = m if lo is None else max(lo, m)
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            st.facts[t] = (lo, hi, ex)
            # definitional links between a derived boolean and the thing it is about
            return True
        st.facts[b] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
        return True

    def split(self, st, b):
        """[(state, bool)] for an undecided boolean"""
        d = self.decide(st, b)
        if d is not None:
            return [(st, d)]
        out = []
        s2 = st.copy()
        if self.assume(st, b, True):
            out.append((st, True))
        if self.assume(s2, b, False):
            out.append((s2, False))
        return out

    def cmp(self, op, a, b, ty=None):
        """boolean value of an integer comparison"""
        if ty and ty.startswith("u"):
            for x in (a, b):
                if x.k not in ("i", "lin"):
                    self.nonneg.add(x)
        if op in ("Eq", "Ne"):
            d = ladd(a, b, -1)
            c, s, t = split_lin(d)
            if t is None:
                r = I(c == 0)
            else:
                r = mk("cmp", "eq0", lmul(d, s))
            return r if op == "Eq" else lnot(r)
        if op == "Lt":
            d = ladd(a, b, -1)
            rel = "lt0"
        elif op == "Le":
            d, rel = ladd(a, b, -1), "le0"
        elif op == "Gt":
            d, rel = ladd(b, a, -1), "lt0"
        else:
            d, rel = ladd(b, a, -1), "le0"
        if d.k == "i":
            return I(d.a[0] < 0 if rel == "lt0" else d.a[0] <= 0)
        return mk("cmp", rel, d)

    # ------------------------------------------------------------ enums
    def variants(self, path):
        if path in STD_ENUM:
            return STD_ENUM[path]
        a = self.P.adt.get(path)
        if a is None:
            return None
        return [(v[0], int(v[1])) for v in a["variants"]]

    def discr(self, v, path):
        if v.k == "adt":
            p = path or v.a[0]
            vs = self.variants(v.a[0]) or self.variants(p)
            if vs:
                for n, d in vs:
                    if n == v.a[1]:
                        return I(d)
            if v.a[0] in ("Val",):
                pass
            return mk("discrname", v.a[0], v.a[1])
        if v.k == "upd":
            return self.discr(v.a[0], path)
        if v.k == "entry" and path in STD_ENUM:
            return I(dict(STD_ENUM[path])["Occupied" if v.a[2] is I(1) else "Vacant"])
        if v.k == "i":
            return v
        t = mk("discr", v)
        vs = self.variants(path) if path else None
        if vs:
            self.discr_vals[t] = tuple(d for _, d in vs)
        return t

    def cases(self, st, v, path):
        """[(state, variant name, v)] - splits on the variant of v"""
        if v.k == "adt":
            return [(st, v.a[1], v)]
        vs = self.variants(path)
        t = self.discr(v, path)
        out = []
        poss = self.possible(st, t)
        for n, d in vs:
            if poss is not None and d not in poss:
                continue
            s2 = st.copy()
            if self.assume(s2, self.cmp("Eq", t, I(d)), True):
                out.append((s2, n, v))
        return out

    def payload(self, v, variant, f="0"):
        return self.proj(self.proj(v, ("as", variant)), (".", f))

    # ------------------------------------------------------------ memory
    def proj(self, v, e):
        k = v.k
        if k == "repeat" and e[0] in ("[]", "[:]") and v.a[1].isdigit() and int(v.a[1]) <= 4096:
            if e[0] == "[]":
                return v.a[0]
            return mk("list", (v.a[0],) * (min(e[2].a[0], int(v.a[1])) - e[1].a[0]))
        if k == "adt":
            if e[0] == "as":
                return v
            if e[0] == "[:]" and v.a[0] == "array":
                return mk("list", tuple(x for _, x in v.a[2])[e[1].a[0]:e[2].a[0]])
            name = e[1] if e[0] == "." else None
            if e[0] == "[]" and e[1].k == "i":
                name = str(e[1].a[0])
            if name is not None:
                for f, x in v.a[2]:
                    if f == name:
                        return x
            return mk("fld", v, e)
        if k == "list":
            if e[0] == "[]" and e[1].k == "i" and 0 <= e[1].a[0] < len(v.a[0]):
                return v.a[0][e[1].a[0]]
            if e[0] == "[:]":
                return mk("list", v.a[0][e[1].a[0]:e[2].a[0]])
            return mk("fld", v, e)
        if k == "map":
            if e[0] == "{}":
                for x, y in v.a[0]:
                    if x is e[1]:
                        return y
            return mk("fld", v, e)
        if k == "upd":
            base, ov = v.a
            for e2, x in ov:
                if e2 == e:
                    return x
                if e[0] == "[]" and e2[0] == "[]" and not (e[1].k == "i" and e2[1].k == "i"):
                    return mk("fld", v, e)
            return self.proj(base, e)
        if k in ("uninit", "moved"):
            return UNINIT
        if k == "entry" and (e[0] == "as" or e == (".", "0")):
            return v
        return mk("fld", v, e)

    def setp(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "[:]" or e[0] == "[]" and e[1].k == "i":
            if v.k == "repeat" and v.a[1].isdigit() and int(v.a[1]) <= 4096:
                v = mk("list", (v.a[0],) * int(v.a[1]))
            elif v.k == "adt" and v.a[0] == "array" and e[0] == "[:]":
                v = mk("list", tuple(x for _, x in v.a[2]))
        cur = self.proj(v, e)
        new = self.setp(cur, path[1:], val)
        if v.k == "list":
            xs = v.a[0]
            if e[0] == "[]" and e[1].k == "i" and 0 <= e[1].a[0] < len(xs):
                return mk("list", xs[:e[1].a[0]] + (new,) + xs[e[1].a[0] + 1:])
            if e[0] == "[:]" and new.k == "list":
                return mk("list", xs[:e[1].a[0]] + new.a[0] + xs[e[2].a[0]:])
        if v.k == "map" and e[0] == "{}":
            return mk("map", tuple((x, new if x is e[1] else y) for x, y in v.a[0]))
        if v.k == "adt":
            if e[0] == "as":
                return new if new.k == "adt" else v
            name = e[1] if e[0] == "." else (str(e[1].a[0]) if e[1].k == "i" else None)
            if name is not None:
                fs = list(v.a[2])
                for i, (f, _) in enumerate(fs):
                    if f == name:
                        fs[i] = (f, new)
                        return adt(v.a[0], v.a[1], fs)
        if v.k == "upd":
            base, ov = v.a
            if e[0] == "[]":
                ov = tuple(x for x in ov if x[0][0] != "[]" or (x[0][1].k == "i" and e[1].k == "i" and x[0] != e))
            else:
                ov = tuple(x for x in ov if x[0] != e)
            return mk("upd", base, ov + ((e, new),))
        return mk("upd", v, ((e, new),))

    def load(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = mk("deref", root[1]) if root[0] == "T" else (mk("static", root[1]) if root[0] == "S" else UNINIT)
        for e in path:
            v = self.proj(v, e)
        return v

    def store(self, st, root, path, val):
        v = st.mem.get(root)
        if v is None:
            v = mk("deref", root[1]) if root[0] == "T" else (mk("static", root[1]) if root[0] == "S" else UNINIT)
        st.mem[root] = self.setp(v, path, val)

    def target(self, v):
        """(root, path) a pointer value designates"""
        if v.k == "ref":
            return v.a[0], v.a[1]
        return ("T", v), ()

    def deref(self, st, v):
        r, p = self.target(v)
        return self.load(st, r, p)

    def place(self, st, fr, pl):
        """(root, path, owner of the last field)"""
        if isinstance(pl, int):
            return ("L", fr.fid, pl), (), None
        root, path, owner = ("L", fr.fid, pl[0]), (), None
        for e in pl[1:]:
            if e == "*":
                v = self.load(st, root, path)
                root, path = self.target(v)
                owner = None
            elif e.startswith("as "):
                path += (("as", e[3:]),)
            elif e.startswith("["):
                x = e[1:-1]
                if x.startswith("_"):
                    iv = self.load(st, ("L", fr.fid, int(x[1:])), ())
                    path += (("[]", iv),)
                else:
                    try:
                        path += (("[]", I(int(x))),)
                    except ValueError:
                        path += (("[]", S(x)),)
            else:
                f, _, own = e[1:].partition("@")
                path += ((".", f),)
                owner = own + "." + f
        return root, path, owner

    def rd(self, st, fr, pl):
        if isinstance(pl, int):
            v = st.mem.get(("L", fr.fid, pl))
            return UNINIT if v is None else v
        r, p, _ = self.place(st, fr, pl)
        return self.load(st, r, p)

    def operand(self, st, fr, o):
        if isinstance(o, dict):
            if fr.sub and o["k"] == "const" and o.get("n") and (o.get("v") or "").startswith("<"):
                v = self.assoc_const(o, fr.sub)
                if v is not None:
                    return v
            return self.const(o)
        v = self.rd(st, fr, o[1])
        if o[0] == "m":
            if isinstance(o[1], int):
                st.mem[("L", fr.fid, o[1])] = MOVED
            elif "*" not in o[1]:
                r, p, _ = self.place(st, fr, o[1])
                if len(p) and v.k not in ("i", "s") and r[0] == "L":
                    self.store(st, r, p, MOVED)
        return v

    def assoc_const(self, o, sub):
        """<T as Trait>::NAME for a known T"""
        m = re.match(r"<(.+) as ([^<>]+)(?:<.*>)?>::(\w+)$", o["v"])
        if not m:
            return None
        ty = subst(m.group(1), sub).split("<")[0]
        fs = [f for f in self.P.assoc.get((m.group(2), m.group(3)), []) if f["self"].split("<")[0] == ty]
        if len(fs) != 1:
            return None
        cache = self.P.__dict__.setdefault("_consts", {})
        if fs[0]["u"] not in cache:
            os = Interp(self.P, seq=True).explore(fs[0])
            cache[fs[0]["u"]] = os[0].value if len(os) == 1 and os[0].kind == "return" else None
        return cache[fs[0]["u"]]

    def const(self, o):
        k = o["k"]
        if k == "int":
            t = o.get("t")
            if t in ("f32", "f64"):
                return mk("f", int(o["v"]), t)
            if t not in INT_BITS and t in self.P.adt and self.P.adt[t]["kind"] == "Enum" and all(not v[2] for v in self.P.adt[t]["variants"]):
                for n, d in self.variants(t):
                    if d == int(o["v"]):
                        return adt(t, n, ())
            return I(norm(int(o["v"]), t))
        if k == "str":
            return S(o["v"])
        if k == "fn":
            return mk("fn", o["p"], o.get("u") or "", o.get("r") or "", tuple(o.get("g") or ()))
        if k == "static":
            return ref(("S", o["n"]))
        if o.get("v") in ("()", "const ()"):
            return UNIT
        return mk("const", o.get("v"), o.get("t"))

    def ty(self, fr, o):
        """type of an operand when it is a bare local or a constant"""
        if isinstance(o, dict):
            return o.get("t")
        if isinstance(o[1], int):
            return fr.fn["locals"][o[1]][0]
        return None

    def fresh(self, st, tag, args=()):
        fr = st.stack[-1]
        st.n += 1
        at = (fr.fid, fr.bb, st.visits.get((fr.fid, fr.bb), 0), st.n)
        return mk("r", tag, tuple(args), at + (st.ctr,) if st.ctr else at)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, line):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            r, p, _ = self.place(st, fr, rv[2])
            return ref(r, p)
        if k == "agg":
            kind, ops = rv[1], rv[2]
            path, variant, fields = (rv[3], rv[4], rv[5]) if len(rv) > 5 else ("", "", [])
            vals = [self.operand(st, fr, o) for o in ops]
            if kind == "adt":
                return adt(path, variant or "" if self.is_enum(path, variant) else "", tuple(zip(fields, vals)))
            if kind == "closure":
                if fr.sub:
                    self.closub[path] = fr.sub
                return adt("closure", path, tuple(zip(fields, vals)))
            return adt(kind, "", tuple((str(i), v) for i, v in enumerate(vals)))
        if k == "discr":
            v = self.rd(st, fr, rv[1])
            return self.discr(v, rv[2])
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "bin":
            return self.binop(st, fr, rv[1], rv[2], rv[3])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            op = rv[1]
            t = self.ty(fr, rv[2])
            if op == "Not":
                if t == "bool" or v.k in ("cmp", "not"):
                    return lnot(v)
                return mk("op", "Not", v)
            if op == "Neg":
                if t in INT_BITS:
                    return lmul(v, -1)
                return mk("op", "Neg", v)
            if op == "PtrMetadata":
                return self.length(st, self.deref(st, v))
            return mk("op", op, v)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return mk("repeat", v, str(rv[2]))
        if k == "len":
            return self.length(st, self.rd(st, fr, rv[1]))
        return self.fresh(st, "rvalue:" + k)

    def is_enum(self, path, variant):
        if path in STD_ENUM:
            return True
        a = self.P.adt.get(path)
        if a is not None:
            return a["kind"] == "Enum"
        return bool(variant) and path.split("::")[-1] != variant

    def length(self, st, v):
        if v.k in ("list", "map"):
            return I(len(v.a[0]))
        if v.k == "adt" and v.a[0] == "array":
            return I(len(v.a[2]))
        if v.k == "repeat" and v.a[1].isdigit():
            return I(int(v.a[1]))
        t = mk("len", v)
        self.nonneg.add(t)
        return t

    def cast(self, st, fr, rv):
        # ["cast", kind, op, ty]
        kind, op, ty = rv[1], rv[2], rv[3]
        v = self.operand(st, fr, op)
        if kind == "IntToInt":
            src = self.ty(fr, op)
            if v.k == "i" and ty in INT_BITS:
                n = v.a[0] & ((1 << INT_BITS[ty]) - 1)
                if ty.startswith("i") and n >> (INT_BITS[ty] - 1):
                    n -= 1 << INT_BITS[ty]
                return I(n)
            if src == "bool":
                return v
            if src in INT_BITS and ty in INT_BITS:
                sb, db = INT_BITS[src], INT_BITS[ty]
                if src[0] == "u":
                    if v.k not in ("lin",):
                        self.nonneg.add(v)
                    if db > sb or (db == sb and ty[0] == "u"):
                        return v
                elif ty[0] == "i" and db >= sb:
                    return v
            if v.k in ("discr",):
                return v
            r = mk("cast", ty, v)
            if ty.startswith("u"):
                self.nonneg.add(r)
            return r
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return mk("cast", ty, v)
        return v

    def binop(self, st, fr, op, a, b):
        ta, tb = self.ty(fr, a), self.ty(fr, b)
        ty = ta or tb
        x, y = self.operand(st, fr, a), self.operand(st, fr, b)
        return self.arith(op, x, y, ty)

    def arith(self, op, x, y, ty):
        if op.endswith("WithOverflow"):
            base = op[: -len("WithOverflow")]
            r = self.arith(base, x, y, ty)
            if r.k == "i" and ty in INT_BITS:
                lo, hi = (0, (1 << INT_BITS[ty]) - 1) if ty[0] == "u" else (-(1 << INT_BITS[ty] - 1), (1 << INT_BITS[ty] - 1) - 1)
                return tup(r, I(not (lo <= r.a[0] <= hi)))
            return tup(r, mk("ovf", base, x, y, ty))
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        isint = ty in INT_BITS or ty in ("char", "bool") or (ty is None)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ty in ("f32", "f64"):
                if op in ("Gt", "Ge"):
                    return mk("fcmp", "Lt" if op == "Gt" else "Le", y, x)
                if op in ("Eq", "Ne"):
                    a, b = sorted((x, y))
                    r = mk("fcmp", "Eq", a, b)
                    return r if op == "Eq" else lnot(r)
                return mk("fcmp", op, x, y)
            if ty == "bool":
                if y.k == "i" and op in ("Eq", "Ne"):
                    return x if (y.a[0] == 1) == (op == "Eq") else lnot(x)
                if x.k == "i" and op in ("Eq", "Ne"):
                    return y if (x.a[0] == 1) == (op == "Eq") else lnot(y)
                if op in ("Eq", "Ne"):
                    a, b = sorted((x, y))
                    r = TRUE if a is b else mk("beq", a, b)
                    return r if op == "Eq" else lnot(r)
            return self.cmp(op, x, y, ty)
        if ty in ("f32", "f64"):
            if op in ("Add", "Mul"):
                x, y = sorted((x, y))
            return mk("op", op, x, y)
        if op == "Add":
            return self._nn(ladd(x, y), ty)
        if op == "Sub":
            return self._nn(ladd(x, y, -1), ty)
        if op == "Mul":
            if x.k == "i":
                return self._nn(lmul(y, x.a[0]), ty)
            if y.k == "i":
                return self._nn(lmul(x, y.a[0]), ty)
            x, y = sorted((x, y))
            return self._nn(mk("op", "Mul", x, y), ty)
        if x.k == "i" and y.k == "i" and isint:
            a, b = x.a[0], y.a[0]
            try:
                if op == "Div":
                    q = abs(a) // abs(b)
                    return I(q if (a < 0) == (b < 0) else -q)
                if op == "Rem":
                    q = abs(a) % abs(b)
                    return I(-q if a < 0 else q)
                if op == "BitAnd":
                    return I(a & b)
                if op == "BitOr":
                    return I(a | b)
                if op == "BitXor":
                    return I(a ^ b)
                if op == "Shl":
                    return I((a << b) & ((1 << INT_BITS.get(ty, 64)) - 1))
                if op == "Shr":
                    return I(a >> b)
            except (ZeroDivisionError, ValueError):
                pass
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ty == "bool":
                for p, q in ((x, y), (y, x)):
                    if p.k == "i":
                        if op == "BitAnd":
                            return q if p.a[0] else FALSE
                        if op == "BitOr":
                            return TRUE if p.a[0] else q
                        return lnot(q) if p.a[0] else q
            x, y = sorted((x, y))
        return self._nn(mk("op", op, x, y), ty)

    def _nn(self, v, ty):
        if ty and ty in INT_BITS and ty[0] == "u" and v.k not in ("i", "lin"):
            self.nonneg.add(v)
        return v

    # ------------------------------------------------------------ events
    def event(self, st, kind, name, args, res, line, extra=None):
        fr = st.stack[-1]
        e = Event(kind, name, tuple(args), res, fr.fn["u"], line, fr.fn["file"], fr.fid, extra)
        if self.keep(e):
            st.events = st.events + (e,)

    # ------------------------------------------------------------ exploration
    def start(self, fn, args=None, facts=None, mem=None):
        """initial state for fn; args: list of values or None (symbolic)"""
        st = State()
        st.mem = dict(mem or {})
        st.facts = dict(facts or {})
        st.events = ()
        st.visits = {}
        st.n = 0
        st.aux = ()
        st.ctr = 0
        st.forks = 0
        st.lastf = {}
        st.stack = [Frame(fn, 0, 0, None, (), self.sub)]
        n = fn["argc"]
        for i in range(1, n + 1):
            t, name = fn["locals"][i][0], (fn["locals"][i][1] if len(fn["locals"][i]) > 1 else None)
            v = None
            if args is not None and i - 1 < len(args):
                v = args[i - 1]
            if v is None:
                v = mk("arg", i, name or f"arg{i}")
                if t in INT_BITS and t[0] == "u":
                    self.nonneg.add(v)
            st.mem[("L", 0, i)] = v
        self.entered.add(fn["u"])
        return st

    def explore(self, fn, args=None, facts=None, mem=None):
        if isinstance(fn, str):
            fn = self.P.get(fn)
        out = self.run(self.start(fn, args, facts, mem))
        # async fn: the value is the coroutine; run it
        if fn.get("async") and not fn["kind"] == "coroutine":
            res = []
            for o in out:
                if o.kind != "return":
                    res.append(o)
                    continue
                st = o.state
                cl = o.value
                body = self.P.fn.get(cl.a[1]) if cl.k == "adt" and cl.a[0] == "closure" else None
                if body is None:
                    res.append(o)
                    continue
                st.stack = [Frame(body, 1, 0, None, (), self.sub)]
                st.mem[("L", 1, 1)] = cl
                st.mem[("L", 1, 2)] = mk("cx")
                st.visits = {}
                self.entered.add(body["u"])
                res += self.run(st)
            return res
        return out

    def run(self, st0):
        work = [st0]
        outs = []
        seen = set()
        outkeys = set()
        multi = False
        while work:
            st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps or len(outs) > self.max_paths:
                self.truncated = True
                break
            fr = st.stack[-1]
            key = (fr.fid, fr.bb)
            n = st.visits.get(key, 0) + 1
            if n > 1 and st.lastf.get(key) == st.forks:
                # nothing was decided since the last visit: a loop over a known shape, unrolled
                n -= 1
                st.ctr += 1
                if st.ctr > self.max_ctr:
                    self.cuts += 1
                    continue
            if n > self.max_visits + 1:
                self.cuts += 1
                continue
            st.lastf[key] = st.forks
            st.visits[key] = n
            st.n = 0
            if multi and self.dedupe and (self.P.preds(fr.fn)[fr.bb] > 1):
                if self.gc:
                    self.collect(st)
                sk = (
                    tuple((f.fid, f.bb) for f in st.stack),
                    frozenset(st.mem.items()),
                    frozenset(st.facts.items()),
                    st.events,
                    frozenset(st.visits.items()),
                    tuple(f.cap for f in st.stack),
                    st.aux,
                )
                if sk in seen:
                    continue
                seen.add(sk)
            rs = self.block(st, fr)
            if len(rs) > 1:
                multi = True
                for r in rs:
                    if not isinstance(r, Outcome):
                        r.forks += 1
            for r in rs:
                if isinstance(r, Outcome):
                    ok = (r.kind, r.value, r.events, frozenset(r.facts.items()))
                    if ok not in outkeys:
                        outkeys.add(ok)
                        outs.append(r)
                else:
                    work.append(r)
        return outs

    def collect(self, st):
        """forget facts about symbols no longer reachable from memory or events (they cannot be
        asked about again), except those about symbols that can be re-read (arguments, fields)"""
        dead = None
        for t in st.facts:
            if self._ephemeral(t):
                if dead is None:
                    live = set()
                    for v in st.mem.values():
                        if v.k not in ("i", "s", "uninit", "moved"):
                            subterms(v, live)
                    for r in st.mem:
                        if r[0] == "T":
                            subterms(r[1], live)
                    for e in st.events:
                        for a in e.args:
                            subterms(a, live)
                        if e.res is not None:
                            subterms(e.res, live)
                    for f in st.stack:
                        subterms(f.cap, live)
                    dead = []
                if not any(x in live for x in subterms(t) if x.k == "r"):
                    dead.append(t)
        for t in dead or ():
            del st.facts[t]

    def _ephemeral(self, t):
        return any(x.k == "r" for x in subterms(t))

    def block(self, st, fr):
        fn = fr.fn
        stmts, term, _ = fn["blocks"][fr.bb]
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[3])
                self.assign(st, fr, s[1], v, s[3])
            elif k == "sd":
                st.mem.pop(("L", fr.fid, s[1]), None)
            elif k == "setd":
                pass
        return self.terminator(st, fr, term)

    def assign(self, st, fr, pl, v, line):
        if isinstance(pl, int):
            st.mem[("L", fr.fid, pl)] = v
            return
        root, path, owner = self.place(st, fr, pl)
        if root[0] != "L" and owner:
            self.event(st, "store", owner, (ref(root, path), v), None, line)
        elif root[0] != "L":
            self.event(st, "store", "*", (ref(root, path), v), None, line)
        self.store(st, root, path, v)

    def goto(self, st, bb):
        fr = st.stack[-1]
        st.stack[-1] = Frame(fr.fn, fr.fid, bb, fr.cont, fr.cap, fr.sub)
        return st

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "return":
            return self.ret(st, fr)
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return self.drop(st, fr, t)
        if k == "assert":
            return self.assert_(st, fr, t)
        if k == "yield":
            # reached only for futures that are not resolved by `poll`: treat as resumed
            return [self.goto(st, t[2])]
        if k == "call":
            return self.call(st, fr, t)
        return []

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        arms, other, ty = t[2], t[3], t[4]
        if v.k == "i":
            for val, bb in arms:
                if norm(int(val), ty) == v.a[0]:
                    return [self.goto(st, bb)]
            return [self.goto(st, other)] if other is not None else []
        if ty == "bool":
            out = []
            f_bb = None
            t_bb = other
            for val, bb in arms:
                if int(val) == 0:
                    f_bb = bb
                else:
                    t_bb = bb
            if f_bb is None:
                f_bb = other
            for s2, b in self.split_bool(st, v):
                out.append(self.goto(s2, t_bb if b else f_bb))
            return out
        if v.k == "discrname":
            # a variant of an enum outside the crate: arms are not resolvable by name
            out = []
            for val, bb in arms:
                out.append(self.goto(st.copy(), bb))
            if other is not None:
                out.append(self.goto(st.copy(), other))
            return out
        out = []
        rest = st
        feasible = True
        for val, bb in arms:
            x = norm(int(val), ty)
            c = self.cmp("Eq", v, I(x), ty)
            s2 = rest.copy()
            if self.assume(s2, c, True):
                out.append(self.goto(s2, bb))
            if not self.assume(rest, c, False):
                feasible = False
                break
        if feasible and other is not None and fr.fn["blocks"][other][1][0] != "unreachable":
            p = self.possible(rest, v) if v.k not in ("lin",) else None
            if p is None or p:
                out.append(self.goto(rest, other))
        return out

    def split_bool(self, st, v):
        if v.k == "not":
            return [(s, not b) for s, b in self.split_bool(st, v.a[0])]
        if v.k == "op" and v.a[0] in ("BitAnd", "BitOr", "BitXor"):
            out = []
            for s1, a in self.split_bool(st, v.a[1]):
                if v.a[0] == "BitAnd" and not a:
                    out.append((s1, False))
                elif v.a[0] == "BitOr" and a:
                    out.append((s1, True))
                else:
                    for s2, b in self.split_bool(s1, v.a[2]):
                        out.append((s2, (a != b) if v.a[0] == "BitXor" else b))
            return out
        if v.k == "beq":
            out = []
            for s1, a in self.split_bool(st, v.a[0]):
                for s2, b in self.split_bool(s1, v.a[1]):
                    out.append((s2, a == b))
            return out
        if v.k == "ovf":
            return [(st, False)]
        return self.split(st, v)

    def ret(self, st, fr):
        v = st.mem.get(("L", fr.fid, 0), UNINIT)
        if fr.cont is None:
            return [Outcome("return", v, st, (fr.fn["u"], fr.bb), self)]
        self.pop(st, fr)
        return self.resume(st, fr.cont, fr.cap, v)

    def pop(self, st, fr):
        st.stack.pop()
        fid = fr.fid
        for r in [r for r in st.mem if r[0] == "L" and r[1] == fid]:
            if r[2] == 0 or True:
                del st.mem[r]
        for r in [r for r in st.visits if r[0] == fid]:
            del st.visits[r]
            st.lastf.pop(r, None)

    def resume(self, st, cont, cap, v):
        r = cont(st, v, *cap)
        return r

    def drop(self, st, fr, t):
        pl = t[1]
        v = self.rd(st, fr, pl)
        if v.k in ("moved", "uninit", "i", "s"):
            return [self.goto(st, t[2])]
        if isinstance(pl, int):
            ty = fr.fn["locals"][pl][0]
        else:
            ty = None
        uid = self.drop_impl(v, ty)
        if uid and self.inline_drop and self.inline_drop(uid):
            root, path, _ = self.place(st, fr, pl)
            return self.enter(st, self.P.fn[uid], [ref(root, path)], self._after_drop, (t[2],))
        self.event(st, "drop", ty or "", (v,), None, t[4] if len(t) > 4 else 0)
        if isinstance(pl, int):
            st.mem[("L", fr.fid, pl)] = MOVED
        return [self.goto(st, t[2])]

    def _after_drop(self, st, v, bb):
        return [self.goto(st, bb)]

    def drop_impl(self, v, ty):
        p = None
        if v.k == "adt":
            p = v.a[0]
        elif ty:
            p = ty.split("<")[0]
        return self.P.drop_of.get(p)

    def assert_(self, st, fr, t):
        c = self.operand(st, fr, t[1])
        expected, msg, target, line = t[2], t[3], t[5], t[7] if len(t) > 7 else 0
        if not expected:
            c = lnot(c)
        if c.k == "i":
            if c.a[0]:
                return [self.goto(st, target)]
            self.event(st, "panic", str(msg), (), None, line)
            return [Outcome("panic", None, st, (fr.fn["u"], fr.bb), self)]
        base = c.a[0] if c.k == "not" else c
        ops = []
        for o in t[4] or []:
            try:
                ops.append(self.operand(st, fr, o))
            except Exception:
                pass
        if base.k == "ovf":
            self.event(st, "overflow_check", str(msg), tuple(ops), None, line, extra=(base.a[0], base.a[3]))
            return [self.goto(st, target)]
        self.event(st, "assert", str(msg), tuple(ops) + (c,), None, line)
        out = []
        if self.panics:
            s2 = st.copy()
            if self.assume(s2, c, False):
                self.event(s2, "panic", str(msg), tuple(ops), None, line)
                out.append(Outcome("panic", None, s2, (fr.fn["u"], fr.bb), self))
        if self.assume(st, c, True):
            out.append(self.goto(st, target))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        f, ops, dest, target, line = t[1], t[2], t[3], t[4], t[6]
        args = [self.operand(st, fr, o) for o in ops]
        argty = [self.ty(fr, o) for o in ops]
        cap = (dest, target, fr.fid)
        if isinstance(f, dict):
            fv = self.const(f)
        else:
            fv = self.operand(st, fr, f)
        desty = fr.fn["locals"][dest][0] if isinstance(dest, int) else None
        return self.invoke(st, fv, args, argty, self._to_dest, cap, line, desty)

    def _to_dest(self, st, v, dest, target, fid):
        fr = st.stack[-1]
        assert fr.fid == fid
        if target is None:
            return [Outcome("panic", v, st, (fr.fn["u"], fr.bb), self)]
        self.assign(st, fr, dest, v, 0)
        return [self.goto(st, target)]

    def fid(self, st, uid):
        fr = st.stack[-1]
        k = (fr.fid, fr.bb, st.visits.get((fr.fid, fr.bb), 0), uid, st.n, st.ctr)
        x = self._fids.get(k)
        if x is None:
            x = next(FIDS)
            self._fids[k] = x
        return x

    def enter(self, st, fn, args, cont, cap, sub=None):
        st.n += 1
        fid = self.fid(st, fn["u"])
        if sub is None and fn["kind"] != "fn":
            sub = self.closub.get(fn["u"])
        st.stack.append(Frame(fn, fid, 0, cont, cap, sub))
        self.entered.add(fn["u"])
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
            tl = fn["locals"][i + 1][0]
            if tl in INT_BITS and tl[0] == "u" and a.k not in ("i", "lin"):
                self.nonneg.add(a)
        return [st]

    def call_closure(self, st, clo, args, cont, cap, line=0):
        """invoke a closure/fn value with already spread arguments"""
        if clo.k == "ref":
            inner = self.deref(st, clo)
            if inner.k in ("adt", "fn", "ref"):
                return self.call_closure(st, inner, args, cont, cap, line)
        if clo.k == "adt" and clo.a[0] == "closure":
            body = self.P.fn.get(clo.a[1])
            if body is not None and len(st.stack) < self.max_depth:
                t1 = body["locals"][1][0]
                selfv = clo
                if t1.startswith("&"):
                    st.n += 1
                    root = ("H", self.fid(st, "clo:" + clo.a[1]))
                    st.mem[root] = clo
                    selfv = ref(root)
                return self.enter(st, body, [selfv] + list(args), cont, cap)
        if clo.k == "fn":
            return self.invoke(st, clo, list(args), [None] * len(args), cont, cap, line, None)
        r = self.fresh(st, "closure", [clo] + list(args))
        self.event(st, "call", "<closure>", [clo] + list(args), r, line)
        return self.resume(st, cont, cap, r)

    def invoke(self, st, fv, args, argty, cont, cap, line, desty):
        if fv.k != "fn":
            return self.call_closure(st, fv, args, cont, cap, line)
        p, u, r, g = fv.a
        sub = st.stack[-1].sub
        if sub and g:
            g = tuple(subst(x, sub) for x in g)
        if self.intercept:
            x = self.intercept(self, st, p, r, u, args, line)
            if x is not None:
                out = []
                for s2, v in x:
                    if v is None:
                        continue
                    if isinstance(v, Outcome):
                        out.append(v)
                    else:
                        out += self.resume(s2, cont, cap, v)
                return out
        body = self.P.fn.get(u) if u else None
        nsub = None
        if body is not None:
            if body["gn"] and len(body["gn"]) == len(g) and not body.get("trait"):
                nsub = dict(zip(body["gn"], g))
            elif body["gn"] and body["gn"][0] == "Self" and len(body["gn"]) == len(g):
                nsub = dict(zip(body["gn"], g))
            elif body["gn"] and body.get("trait"):
                nsub = unify([body["self"]] + list(body.get("ta") or ()), body["gn"], g)
        else:
            body = self.P.dispatch_types(p, g)
            if body is None and (r == "" or r == p and g and g[0].startswith("dyn ")):
                body = self.P.dispatch(self, st, p, args, g)
        if body is not None and body["kind"] == "coroutine" and args and args[0].k == "ref":
            # polled through a pinned reference: the captured variables are those of the future itself
            f = args[0]
            while f.k == "ref":
                f = self.deref(st, f)
            if f.k == "adt" and f.a[0] == "closure":
                args = [f] + list(args[1:])
                cont, cap = self.k_poll, (cont, cap)
        if body is not None and not self.opaque(body["u"], body) and len(st.stack) < self.max_depth \
                and (self.only_inline is None or self.only_inline(body["u"], body)) \
                and sum(1 for f in st.stack if f.fn is body) < (16 if self.seq else 3):
            return self.enter(st, body, args, cont, cap, nsub)
        h = self.intrinsic(st, p, r, g, args, argty, cont, cap, line, desty, u)
        if h is not None:
            return h
        return self.opaque_call(st, p, r, g, args, argty, cont, cap, line, desty, u)

    def bytes_op(self, st, p, last, g, args):
        """exact conversions between integers, byte sequences and arrays"""
        import colls
        if last in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
            ty = p.partition("<impl ")[2].partition(">")[0]
            n = {"f64": 64, "f32": 32}.get(ty) or INT_BITS.get(ty)
            if n is None:
                return None
            x, n = args[0], n // 8
            if x.k == "i":
                bs = [I(b) for b in (x.a[0] & (1 << 8 * n) - 1).to_bytes(n, "little")]
            else:
                bs = [mk("byte", x, i, n) for i in range(n)]
            return colls.L(*(bs[::-1] if last == "to_be_bytes" else bs))
        if last in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            ty = p.partition("<impl ")[2].partition(">")[0]
            n = {"f64": 64, "f32": 32}.get(ty) or INT_BITS.get(ty)
            xs = colls.elems(self.deref(st, args[0]) if args[0].k == "ref" else args[0])
            if n is None or xs is None or len(xs) != n // 8:
                return None
            xs = xs[::-1] if last == "from_be_bytes" else xs
            if all(x.k == "i" for x in xs) and ty in INT_BITS:
                v = int.from_bytes(bytes(x.a[0] & 255 for x in xs), "little")
                return I(v - (1 << n) if ty[0] == "i" and v >> n - 1 else v)
            if all(x.k == "byte" and x.a == (xs[0].a[0], i, n // 8) for i, x in enumerate(xs)):
                return xs[0].a[0]
            if all(x == I(0) for x in xs):
                return I(0)
            v = mk("pure", last, (colls.L(*xs),))
            if ty in INT_BITS and ty[0] == "u":
                self.nonneg.add(v)
            return v
        if last in ("try_into", "try_from") and len(g) == 2:
            frm, to = g if last == "try_into" else (g[1], g[0])
            m = re.match(r"&?(?:mut )?\[(.*); (\d+)\]$", to)
            if m and args[0].k == "ref" and (frm.startswith("&") or "Vec<" in frm) or m and args[0].k == "list":
                v = self.deref(st, args[0]) if args[0].k == "ref" else args[0]
                xs = colls.elems(v)
                if xs is None:
                    return None
                if len(xs) != int(m.group(2)):
                    return err(mk("pure", "TryFromSliceError", (I(len(xs)),)))
                return ok(args[0] if to.startswith("&") else colls.L(*xs))
            if frm in INT_BITS and to in INT_BITS and args[0].k == "i":
                b = INT_BITS[to]
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if to[0] == "i" else (0, (1 << b) - 1)
                return ok(args[0]) if lo <= args[0].a[0] <= hi else err(mk("pure", "try_from", tuple(args)))
        return None

    def opaque_call(self, st, p, r, g, args, argty, cont, cap, line, desty, u):
        name = r or p
        last = p.split("::")[-1]
        crate = p.split("::")[0]
        if not u and crate == "core":
            x = self.bytes_op(st, p, last, g, args)
            if x is not None:
                return self.resume(st, cont, cap, x)
        if not u and last == "try_from" and len(g) == 2 and g[0] in INT_BITS and g[1] in INT_BITS:
            to, frm = g
            lo, hi = (-(1 << INT_BITS[to] - 1), (1 << INT_BITS[to] - 1) - 1) if to[0] == "i" else (0, (1 << INT_BITS[to]) - 1)
            flo, fhi = (-(1 << INT_BITS[frm] - 1), (1 << INT_BITS[frm] - 1) - 1) if frm[0] == "i" else (0, (1 << INT_BITS[frm]) - 1)
            if args[0].k == "i":
                return self.resume(st, cont, cap, ok(args[0]) if lo <= args[0].a[0] <= hi else err(mk("pure", "try_from", tuple(args))))
            if lo <= flo and fhi <= hi:
                return self.resume(st, cont, cap, ok(args[0]))
        if not u and last in PURE_CALLS and crate in ("core", "alloc", "std", "hashbrown"):
            loaded = tuple(self.deref(st, a) if (a.k == "ref" or (t or "").startswith("&")) else a for a, t in zip(args, argty))
            res = mk("pure", last, loaded)
            if desty in INT_BITS and desty[0] == "u":
                self.nonneg.add(res)
            return self.resume(st, cont, cap, res)
        res = self.fresh(st, p if not u else name, args)
        if desty in INT_BITS and desty[0] == "u":
            self.nonneg.add(res)
        self.event(st, "call", p, args, res, line, extra=(r, u, g))
        # mutable borrows escape into the callee: what they point at is unknown afterwards
        for i, (a, t) in enumerate(zip(args, argty)):
            if a.k == "ref" and (t or "").startswith("&mut"):
                root, path = a.a
                st.n += 1
                self.store(st, root, path, mk("havoc", res, i))
        clos = [a for a in args if a.k == "adt" and a.a[0] == "closure" and self.P.fn.get(a.a[1])
                and self.P.fn[a.a[1]]["kind"] == "closure"] if self.closures_in_opaque else []
        if desty == "!" or not clos:
            return self.resume(st, cont, cap, res)
        out = []
        s2 = st.copy()
        out += self.resume(s2, cont, cap, res)
        c = clos[0]
        b = self.P.fn[c.a[1]]
        fargs = [mk("cbarg", res, i) for i in range(b["argc"] - 1)]
        out += self.call_closure(st, c, fargs, self._drop_result, (cont, cap, res), line)
        return out

    def _drop_result(self, st, v, cont, cap, res):
        return self.resume(st, cont, cap, res)

    # ------------------------------------------------------------ continuations
    def k_wrap_some(self, st, v, cont, cap):
        return self.resume(st, cont, cap, some(v))

    def k_wrap_ok(self, st, v, cont, cap):
        return self.resume(st, cont, cap, ok(v))

    def k_wrap_err(self, st, v, cont, cap):
        return self.resume(st, cont, cap, err(v))

    def k_poll(self, st, v, cont, cap):
        return self.resume(st, cont, cap, adt("core::task::poll::Poll", "Ready", (("0", v),)))

    def k_filter(self, st, b, cont, cap, v):
        out = []
        for s2, t in self.split_bool(st, b):
            out += self.resume(s2, cont, cap, some(v) if t else NONE)
        return out

    def k_iter_map(self, st, v, kind, kont, kcap):
        if kind == "map":
            return kont(st, some(v), *kcap)
        out = []
        for s2, n, x in self.cases(st, v, OPTION):
            if n == "Some":
                out += kont(s2, some(self.payload(x, "Some")), *kcap)
            elif kind == "map_while":
                out += kont(s2, NONE, *kcap)
        return out

    def k_iter_filter(self, st, b, kind, e, kont, kcap):
        if kind == "inspect":
            return kont(st, some(e), *kcap)
        out = []
        for s2, t in self.split_bool(st, b):
            if kind == "skip_while":
                t = not t
            if t:
                out += kont(s2, some(e), *kcap)
            elif kind == "take_while":
                out += kont(s2, NONE, *kcap)
        return out

    def resume_k(self, st, v, cont, cap):
        return self.resume(st, cont, cap, v)

    # ------------------------------------------------------------ intrinsics (std semantics)
    def intrinsic(self, st, p, r, g, args, argty, cont, cap, line, desty, u):
        from intrinsics import TABLE, PREFIX
        import colls  # noqa: F401 (extends TABLE)
        for pre in IGNORE_PREFIX:
            if p.startswith(pre):
                if p == "core::hint::must_use" or p == "core::hint::black_box":
                    return self.resume(st, cont, cap, args[0])
                return self.resume(st, cont, cap, mk("ign", p))
        h = TABLE.get(p)
        if h is None:
            for pre, hh in PREFIX:
                if p.startswith(pre):
                    h = hh
                    break
        if h is None:
            # constructors used as functions
            x = self.ctor(p, args)
            if x is not None:
                return self.resume(st, cont, cap, x)
            return None
        return h(self, st, args, cont, cap, dict(p=p, r=r, g=g, argty=argty, line=line, desty=desty, u=u))

    def ctor(self, p, args):
        if p in self.P.adt and self.P.adt[p]["kind"] == "Struct":
            return adt(p, "", tuple((str(i), a) for i, a in enumerate(args)))
        par, _, name = p.rpartition("::")
        vs = self.variants(par) if (par in STD_ENUM or par in self.P.adt) else None
        if vs and any(n == name for n, _ in vs):
            return adt(par, name, tuple((str(i), a) for i, a in enumerate(args)))
        return None
