"""Abstract semantics of the standard-library functions the repository's code is written with."""
from interp import STD_ENUM
from interp import (V, mk, I, S, TRUE, FALSE, UNINIT, MOVED, UNIT, adt, some, NONE, ok, err, tup, ref, OPTION, RESULT,
                    INT_BITS, lnot, ladd, lmul)

CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
ORD = "core::cmp::Ordering"
TABLE = {}
PREFIX = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def alias(*pats):
    def d(f):
        for n in pats:
            PREFIX.append((n, f))
        return f
    return d


def ident(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, args[0])


for n in (
    "core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new", "core::future::into_future::IntoFuture::into_future",
    "core::convert::Into::into", "core::convert::From::from", "alloc::boxed::Box::<T>::pin", "core::convert::AsRef::as_ref",
    "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::pin::Pin::<Ptr>::as_mut",
    "core::pin::Pin::<Ptr>::get_mut", "core::pin::Pin::<Ptr>::get_unchecked_mut",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice", "alloc::string::String::as_str",
    "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes", "core::result::Result::<T, E>::as_deref",
    "core::num::<impl f64>::from_bits", "core::mem::ManuallyDrop::<T>::new", "core::any::Any::type_id0",
    "core::cell::RefCell::<T>::borrow0", "alloc::vec::Vec::<T, A>::into_boxed_slice", "core::ops::try_trait::Try::from_output0",
    "core::iter::traits::iterator::Iterator::by_ref",
):
    TABLE[n] = ident


@reg("core::convert::Into::into", "core::convert::From::from")
def conv(it, st, args, cont, cap, c):
    """identity for the conversions that keep the value; a symbol keyed by the value otherwise"""
    a = args[0]
    g = c["g"]
    if len(g) == 2 and g[0].startswith(NONNULL) and a.k == "ref":
        return it.resume(st, cont, cap, adt(NONNULL, "", (("pointer", a),)))
    if len(g) == 2:
        x, y = (g[1], g[0]) if c["p"].endswith("from") else (g[0], g[1])
        if x == y:
            return it.resume(st, cont, cap, a)
        if x in INT_BITS and y in INT_BITS:
            return it.resume(st, cont, cap, a)
        if a.k == "adt" and y in (f"alloc::rcs::arc::Arc<{x}>", f"alloc::rcs::rc::Rc<{x}>", f"alloc::boxed::Box<{x}>"):
            return box_new(it, st, args, cont, cap, c)
        if y in ("f32", "f64") and (x in INT_BITS or x == "f32"):
            return it.resume(st, cont, cap, mk("cast", y, a))
        if y == "alloc::string::String" or y.startswith(("alloc::boxed::Box", "alloc::rcs", "alloc::vec::Vec", "&")):
            return it.resume(st, cont, cap, a)
        if y.startswith("core::option::Option<") and not x.startswith("core::option::Option<"):
            return it.resume(st, cont, cap, some(a))
        if x == "bool" and y in INT_BITS:
            return it.resume(st, cont, cap, a)
        return it.resume(st, cont, cap, mk("conv", y, a))
    return it.resume(st, cont, cap, a)


@reg("alloc::boxed::Box::<T>::new", "alloc::rcs::arc::Arc::<T>::new", "alloc::rcs::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new",
     "alloc::rc::Rc::<T>::new")
def box_new(it, st, args, cont, cap, c):
    st.n += 1
    root = ("H", it.fid(st, "box"))
    st.mem[root] = args[0]
    return it.resume(st, cont, cap, ref(root))


@reg("alloc::rcs::arc::Arc::<T, A>::ptr_eq", "alloc::rcs::rc::Rc::<T, A>::ptr_eq", "alloc::sync::Arc::<T, A>::ptr_eq", "alloc::rc::Rc::<T, A>::ptr_eq",
     "alloc::rcs::arc::Arc::<T>::ptr_eq", "alloc::sync::Arc::<T>::ptr_eq")
def ptr_eq(it, st, args, cont, cap, c):
    a, b = it.deref(st, args[0]), it.deref(st, args[1])
    if a.k == "ref" and b.k == "ref":
        return it.resume(st, cont, cap, I(int(a.a == b.a)))
    return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])


NONNULL = "core::ptr::non_null::NonNull"


@reg(NONNULL + "::<T>::as_ptr", NONNULL + "::<T>::as_ref", NONNULL + "::<T>::as_mut")
def nonnull_ptr(it, st, args, cont, cap, c):
    v = args[0] if c["p"].endswith("as_ptr") else it.deref(st, args[0])
    return it.resume(st, cont, cap, v.a[2][0][1] if v.k == "adt" and v.a[0] == NONNULL else mk("asptr", v))


@reg("alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T>::from_raw", "alloc::boxed::Box::<T>::into_raw", "alloc::boxed::Box::<T, A>::into_raw",
     "alloc::rcs::arc::Arc::<T>::into_raw", "alloc::rcs::arc::Arc::<T>::from_raw", "alloc::rcs::arc::Arc::<T, A>::into_raw", "alloc::rcs::arc::Arc::<T, A>::from_raw")
def box_raw(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, args[0])


@reg("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(it, st, args, cont, cap, c):
    st.n += 1
    root = ("H", it.fid(st, "box"))
    st.mem[root] = adt("core::mem::maybe_uninit::MaybeUninit", "", (("value", adt("core::mem::manually_drop::ManuallyDrop", "", (("value", mk("undef")),))),))
    return it.resume(st, cont, cap, ref(root))


@reg("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def deref(it, st, args, cont, cap, c):
    g = c["g"][0] if c["g"] else ""
    if g.startswith(("alloc::vec::Vec<", "alloc::string::String", "std::sync::lazy", "once_cell", "core::mem::ManuallyDrop")):
        return it.resume(st, cont, cap, args[0])
    v = it.deref(st, args[0])
    r, p = it.target(v)
    return it.resume(st, cont, cap, ref(r, p))


@reg("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow")
def as_ref(it, st, args, cont, cap, c):
    if c["g"] and c["g"][0].startswith(("alloc::rcs::", "alloc::boxed::Box<", "alloc::sync::", "alloc::rc::")):
        return deref(it, st, args, cont, cap, c)
    return it.resume(st, cont, cap, args[0])


@reg("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec",
     "alloc::string::ToString::to_string0")
def clone(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, it.deref(st, args[0]))


@reg("alloc::string::ToString::to_string")
def to_string(it, st, args, cont, cap, c):
    v = it.deref(st, args[0])
    if v.k == "s":
        return it.resume(st, cont, cap, v)
    return it.resume(st, cont, cap, mk("pure", "to_string", (v,)))


def text(it, st, v):
    while v.k == "ref":
        v = it.deref(st, v)
    return v.a[0] if v.k == "s" else None


def _strtest(name, test):
    @reg("core::str::<impl str>::" + name)
    def f(it, st, args, cont, cap, c):
        a = text(it, st, args[0])
        b = chr(args[1].a[0]) if args[1].k == "i" and (c["g"] or [""])[0] == "char" else text(it, st, args[1])
        if isinstance(a, str) and isinstance(b, str):
            return it.resume(st, cont, cap, I(test(a, b)))
        return None


for n_, t_ in (("starts_with", str.startswith), ("ends_with", str.endswith), ("contains", lambda a, b: b in a)):
    _strtest(n_, t_)


# ---------------------------------------------------------------- futures
@reg("core::future::get_context")
def getctx(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, mk("cx"))


@reg("futures_executor::local_pool::block_on")
def block_on(it, st, args, cont, cap, c):
    f = args[0]
    for _ in range(4):
        if f.k == "ref":
            f = it.deref(st, f)
    if f.k == "ready":
        return it.resume(st, cont, cap, f.a[0])
    if f.k == "adt" and f.a[0] == "closure":
        body = it.P.fn.get(f.a[1])
        if body is not None and not it.opaque(body["u"], body) and len(st.stack) < it.max_depth + 4:
            return it.enter(st, body, [f, mk("cx")], cont, cap)
    return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])


@reg("tokio::task::blocking::block_in_place", "tokio::task::block_in_place")
def block_in_place(it, st, args, cont, cap, c):
    return it.call_closure(st, args[0], [], cont, cap, c["line"])


@reg("tokio::runtime::handle::Handle::block_on", "tokio::runtime::runtime::Runtime::block_on", "tokio::runtime::Handle::block_on", "tokio::runtime::Runtime::block_on")
def handle_block_on(it, st, args, cont, cap, c):
    return block_on(it, st, args[1:], cont, cap, c)


@reg("core::future::future::Future::poll")
def poll(it, st, args, cont, cap, c):
    f = args[0]
    for _ in range(4):
        if f.k == "ref":
            f2 = it.deref(st, f)
            if f2 is UNINIT:
                break
            f = f2
    if f.k == "adt" and f.a[0] == "closure":
        body = it.P.fn.get(f.a[1])
        if body is not None and not it.opaque(body["u"], body) and len(st.stack) < it.max_depth + 4:
            return it.enter(st, body, [f, mk("cx")], it.k_poll, (cont, cap))
    if f.k == "ready":
        return it.resume(st, cont, cap, adt(POLL, "Ready", (("0", f.a[0]),)))
    it.event(st, "await", c["r"] or c["p"], [f], None, c["line"])
    res = mk("out", f)
    return it.resume(st, cont, cap, adt(POLL, "Ready", (("0", res),)))


# ---------------------------------------------------------------- ? operator
@reg("core::ops::try_trait::Try::branch")
def branch(it, st, args, cont, cap, c):
    v = args[0]
    g = c["g"][0] if c["g"] else ""
    path = OPTION if g.startswith("core::option::Option") else RESULT
    if v.k == "adt" and v.a[0] in (OPTION, RESULT):
        path = v.a[0]
    out = []
    for s2, n, x in it.cases(st, v, path):
        if n in ("Ok", "Some"):
            r = adt(CF, "Continue", (("0", it.payload(x, n)),))
        elif n == "Err":
            r = adt(CF, "Break", (("0", err(it.payload(x, "Err"))),))
        else:
            r = adt(CF, "Break", (("0", NONE),))
        out += it.resume(s2, cont, cap, r)
    return out


@reg("core::ops::try_trait::FromResidual::from_residual")
def from_residual(it, st, args, cont, cap, c):
    v = args[0]
    g = c["g"]
    if v.k == "adt" and v.a[1] == "Err":
        e = it.payload(v, "Err")
        return it.resume(st, cont, cap, err(mk("q", e) if e.k != "adt" and e.k != "q" else e))
    if v.k == "adt" and v.a[1] == "None":
        return it.resume(st, cont, cap, NONE)
    return it.resume(st, cont, cap, err(mk("q", v)))


# ---------------------------------------------------------------- comparison
def _int_of(c):
    g = c["g"]
    if g:
        t = g[0].lstrip("&")
        if t in INT_BITS or t in ("char", "bool"):
            return t
        if t in ("f32", "f64"):
            return t
    return None


def strip(it, st, v, t):
    """value behind all the references of type text t"""
    while t.startswith("&"):
        v = it.deref(st, v)
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.partition(" ")[2]
        if t.startswith("mut "):
            t = t[4:]
    return v


def field_types(it, path, variant):
    d = it.P.adt.get(path)
    if d:
        for v in d["variants"]:
            if v[0] == variant or len(d["variants"]) == 1:
                return {f[0]: f[1] for f in v[2] if f[1] in INT_BITS or f[1] in ("f32", "f64", "bool", "char")}
    return {}


def order(it, st, a, b, ty, depth=0):
    """[(state, -1 | 0 | 1 | None)]: the (partial) order of two values of a type whose order is the standard or a derived one"""
    ty = ty or ""
    while ty.startswith("&"):
        ty = ty[1:].lstrip()
    if ty in ("f32", "f64"):
        out = []
        for s2, lt in it.split(st.copy(), it.arith("Lt", a, b, ty)):
            if lt:
                out.append((s2, -1))
                continue
            for s3, eq in it.split(s2, it.arith("Eq", a, b, ty)):
                if eq:
                    out.append((s3, 0))
                    continue
                for s4, gt in it.split(s3, it.arith("Gt", a, b, ty)):
                    out.append((s4, 1 if gt else None))
        return out
    if ty not in INT_BITS and ty not in ("char", "bool"):
        if a.k == "ref" and b.k == "ref" and depth < 4:
            return order(it, st, it.deref(st, a), it.deref(st, b), ty, depth + 1)
        path = a.a[0] if a.k == "adt" else b.a[0] if b.k == "adt" else ty
        if path == "core::cmp::Reverse" and a.k == "adt" and b.k == "adt":
            return order(it, st, b.a[2][0][1], a.a[2][0][1], None, depth + 1)
        vs = it.variants(path)
        if vs and (path in STD_ENUM or it.P.derives(path, "core::cmp::PartialOrd")):
            bare = path not in STD_ENUM and all(not v[2] for v in it.P.adt[path]["variants"])
            out = []
            for s2, w in order(it, st, it.discr(a, path), it.discr(b, path), "i64"):
                if w or bare or a is b:
                    out.append((s2, w))
                elif a.k == "adt" and b.k == "adt":
                    out += order_fields(it, s2, a, b, depth)
                else:
                    out += order(it, s2, mk("key", a), mk("key", b), "i64")
            return out
        if a.k == "adt" and b.k == "adt" and a.a[1] == b.a[1] and (path == "tuple" or it.P.derives(path, "core::cmp::PartialOrd")):
            return order_fields(it, st, a, b, depth)
        if a.k != "i":
            a = mk("key", a)
        if b.k != "i":
            b = mk("key", b)
    out = []
    for s2, lt in it.split(st, it.cmp("Lt", a, b, ty)):
        if lt:
            out.append((s2, -1))
            continue
        for s3, eq in it.split(s2, it.cmp("Eq", a, b, ty)):
            out.append((s3, 0 if eq else 1))
    return out


def order_fields(it, st, a, b, depth):
    ft = field_types(it, a.a[0], a.a[1])
    cur = [(st, 0)]
    for (f, x), (_, y) in zip(a.a[2], b.a[2]):
        nxt = []
        for s2, w in cur:
            if w == 0:
                nxt += order(it, s2, x, y, ft.get(f), depth + 1)
            else:
                nxt.append((s2, w))
        cur = nxt
    return cur


def as_list(v):
    if v.k == "repeat" and v.a[1].isdigit() and int(v.a[1]) <= 4096:
        return mk("list", (v.a[0],) * int(v.a[1]))
    if v.k == "adt" and v.a[0] == "array":
        return mk("list", tuple(x for _, x in v.a[2]))
    return v


def equal(it, st, a, b, ty, depth=0):
    """boolean value of structural equality"""
    if a is b and ty not in ("f32", "f64"):
        return TRUE
    if ty in ("f32", "f64"):
        return it.arith("Eq", a, b, ty)
    if ty in INT_BITS or ty == "char":
        return it.cmp("Eq", a, b, ty)
    if ty == "bool":
        return it.arith("Eq", a, b, "bool")
    if a.k == "i" or b.k == "i":
        return it.cmp("Eq", a, b, None)
    if a.k == "s" and b.k == "s":
        return I(a.a[0] == b.a[0])
    if a.k == "ref" and b.k == "ref" and depth < 4:
        return equal(it, st, it.deref(st, a), it.deref(st, b), None, depth + 1)
    if a.k == "list" and b.k != "list":
        b = as_list(b)
    elif b.k == "list" and a.k != "list":
        a = as_list(a)
    if a.k == "list" and b.k == "list":
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            q = equal(it, st, x, y, None, depth + 1)
            if q is FALSE:
                return FALSE
            if q is not TRUE:
                r = q if r is TRUE else mk("op", "BitAnd", r, q)
        return r
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1]:
            return FALSE
        if a.a[0] == "closure":
            return mk("eq", *sorted((a, b)))
        if a.a[0] == NONNULL:
            x, y = a.a[2][0][1], b.a[2][0][1]
            if x is y or x.k == "ref" and y.k == "ref" and x.a[0][0] == y.a[0][0] == "H":
                return I(int(x is y))
        ft = field_types(it, a.a[0], a.a[1])
        bs = [equal(it, st, x, y, ft.get(f), depth + 1) for (f, x), (_, y) in zip(a.a[2], b.a[2])]
        if any(x is FALSE for x in bs):
            return FALSE
        bs = [x for x in bs if x is not TRUE]
        if not bs:
            return TRUE
        r = bs[0]
        for x in bs[1:]:
            r = mk("op", "BitAnd", r, x)
        return r
    for x, y in ((a, b), (b, a)):
        if x.k == "adt" and x.a[1] and x.a[0] not in ("closure",):
            vs = it.variants(x.a[0])
            if vs and not x.a[2]:
                return it.cmp("Eq", it.discr(y, x.a[0]), I(dict(vs)[x.a[1]]), None)
            if vs and x.a[2]:
                t = it.cmp("Eq", it.discr(y, x.a[0]), I(dict(vs)[x.a[1]]), None)
                if t is FALSE:
                    return FALSE
                for f, xv in x.a[2]:
                    q = equal(it, st, xv, it.payload(y, x.a[1], f), None, depth + 1)
                    if q is FALSE:
                        return FALSE
                    if q is not TRUE:
                        t = q if t is TRUE else mk("op", "BitAnd", t, q)
                return t
    return mk("eq", *sorted((a, b)))


@reg("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def p_eq(it, st, args, cont, cap, c):
    g = c["g"]
    t = g[0] if g else ""
    t2 = g[1] if len(g) > 1 else t
    a = strip(it, st, it.deref(st, args[0]), t)
    b = strip(it, st, it.deref(st, args[1]), t2)
    bt = t
    while bt.startswith("&"):
        bt = bt[1:].lstrip()
    own = own_impl(it, "core::cmp::PartialEq", "eq", a, b)
    if own is not None:
        def k(s, v):
            return it.resume(s, cont, cap, lnot(v) if c["p"].endswith("ne") else v)
        return it.enter(st, own, [_cell(it, st, a), _cell(it, st, b)], k, ())
    r = equal(it, st, a, b, bt)
    if c["p"].endswith("ne"):
        r = lnot(r)
    return it.resume(st, cont, cap, r)


def _cell(it, st, v):
    from colls import cellof
    return cellof(it, st, v)


def own_impl(it, tr, name, a, b):
    """the type's own, written comparison"""
    if a.k != "adt" or b.k != "adt" or a.a[0] != b.a[0] or it.P.derives(a.a[0], tr):
        return None
    r = [f for f in it.P.trait_impls.get((tr, name), []) if f["self"].split("<")[0] == a.a[0]]
    return r[0] if len(r) == 1 else None


OPS = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


@reg("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def p_ord(it, st, args, cont, cap, c):
    g = c["g"]
    t = g[0] if g else ""
    if t.startswith("log::") or t.startswith("tracing"):
        return it.resume(st, cont, cap, FALSE)
    a = strip(it, st, it.deref(st, args[0]), t)
    b = strip(it, st, it.deref(st, args[1]), g[1] if len(g) > 1 else t)
    op = OPS[c["p"].split("::")[-1]]
    bt = t.lstrip("&")
    if bt in INT_BITS or bt == "char":
        return it.resume(st, cont, cap, it.cmp(op, a, b, bt))
    if bt in ("f32", "f64"):
        return it.resume(st, cont, cap, it.arith(op, a, b, bt))
    vals = {"Lt": (-1,), "Le": (-1, 0), "Gt": (1,), "Ge": (0, 1)}[op]
    own = own_impl(it, "core::cmp::PartialOrd", "partial_cmp", a, b)
    if own is not None:
        def k(s, o):
            out = []
            for s2, n, x in it.cases(s, o, OPTION):
                if n == "None":
                    out += it.resume(s2, cont, cap, FALSE)
                    continue
                for s3, w, _ in it.cases(s2, it.payload(o, "Some"), ORD):
                    out += it.resume(s3, cont, cap, I({"Less": -1, "Equal": 0, "Greater": 1}[w] in vals))
            return out
        return it.enter(st, own, [_cell(it, st, a), _cell(it, st, b)], k, ())
    if (a.k == "adt" and b.k == "adt") or (it.variants(bt) and it.P.derives(bt, "core::cmp::PartialOrd")):
        out = []
        for s2, w in order(it, st, a, b, bt):
            out += it.resume(s2, cont, cap, I(w in vals))
        return out
    # any totally ordered value: order by an opaque key
    return it.resume(st, cont, cap, it.cmp(op, mk("key", a) if a.k != "i" else a, mk("key", b) if b.k != "i" else b))


@reg("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def o_cmp(it, st, args, cont, cap, c):
    g = c["g"]
    t = g[0] if g else ""
    a = strip(it, st, it.deref(st, args[0]), t)
    b = strip(it, st, it.deref(st, args[1]), g[1] if len(g) > 1 else t)
    bt = t.lstrip("&")
    part = c["p"].endswith("partial_cmp")
    wrap = some if part else (lambda x: x)
    out = []
    for s2, w in order(it, st, a, b, bt):
        out += it.resume(s2, cont, cap, NONE if w is None else wrap(adt(ORD, {-1: "Less", 0: "Equal", 1: "Greater"}[w], ())))
    return out


@reg("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def minmax(it, st, args, cont, cap, c):
    t = c["g"][0] if c["g"] else ""
    a, b = args
    mx = c["p"].endswith("max")
    if not (t in INT_BITS):
        return it.resume(st, cont, cap, mk("pure", "max" if mx else "min", tuple(sorted((a, b)))))
    out = []
    for s2, lt in it.split(st, it.cmp("Lt", a, b, t)):
        out += it.resume(s2, cont, cap, (b if lt else a) if mx else (a if lt else b))
    return out


@reg("core::cmp::Ordering::reverse")
def o_rev(it, st, args, cont, cap, c):
    out = []
    m = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
    for s2, n, x in it.cases(st, args[0], ORD):
        out += it.resume(s2, cont, cap, adt(ORD, m[n], ()))
    return out


@reg("core::cmp::Ordering::then_with", "core::cmp::Ordering::then")
def o_then(it, st, args, cont, cap, c):
    out = []
    for s2, n, x in it.cases(st, args[0], ORD):
        if n != "Equal":
            out += it.resume(s2, cont, cap, adt(ORD, n, ()))
        elif c["p"].endswith("with"):
            out += it.call_closure(s2, args[1], [], cont, cap, c["line"])
        else:
            out += it.resume(s2, cont, cap, args[1])
    return out


def _ordtest(names):
    def f(it, st, args, cont, cap, c):
        out = []
        for s2, n, x in it.cases(st, args[0], ORD):
            out += it.resume(s2, cont, cap, I(n in names))
        return out
    return f


TABLE["core::cmp::Ordering::is_lt"] = _ordtest(("Less",))
TABLE["core::cmp::Ordering::is_le"] = _ordtest(("Less", "Equal"))
TABLE["core::cmp::Ordering::is_gt"] = _ordtest(("Greater",))
TABLE["core::cmp::Ordering::is_ge"] = _ordtest(("Greater", "Equal"))
TABLE["core::cmp::Ordering::is_eq"] = _ordtest(("Equal",))
TABLE["core::cmp::Ordering::is_ne"] = _ordtest(("Less", "Greater"))


@reg("core::ops::bit::Not::not")
def op_not(it, st, args, cont, cap, c):
    g = c["g"][0] if c["g"] else ""
    v = strip(it, st, args[0], g)
    if g.lstrip("&") == "bool":
        return it.resume(st, cont, cap, lnot(v))
    return it.resume(st, cont, cap, mk("op", "Not", v))


# ---------------------------------------------------------------- memory
@reg("core::mem::replace")
def mem_replace(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    old = it.load(st, r, p)
    it.store(st, r, p, args[1])
    return it.resume(st, cont, cap, old)


@reg("core::mem::take")
def mem_take(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    old = it.load(st, r, p)
    t = c["g"][0] if c["g"] else ""
    it.store(st, r, p, NONE if t.startswith("core::option::Option") else mk("default", t))
    return it.resume(st, cont, cap, old)


@reg("core::mem::swap")
def mem_swap(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    r2, p2 = it.target(args[1])
    a, b = it.load(st, r, p), it.load(st, r2, p2)
    it.store(st, r, p, b)
    it.store(st, r2, p2, a)
    return it.resume(st, cont, cap, UNIT)


@reg("core::mem::drop")
def mem_drop(it, st, args, cont, cap, c):
    t = c["g"][0] if c["g"] else ""
    if args[0].k not in ("i", "s", "moved", "uninit"):
        uid = it.drop_impl(args[0], t)
        if uid and it.inline_drop and it.inline_drop(uid):
            st.n += 1
            root = ("H", it.fid(st, "drop"))
            st.mem[root] = args[0]
            return it.enter(st, it.P.fn[uid], [ref(root)], cont, cap)
        it.event(st, "drop", t, (args[0],), None, c["line"])
    return it.resume(st, cont, cap, UNIT)


@reg("core::mem::size_of")
def size_of(it, st, args, cont, cap, c):
    t = c["g"][0] if c["g"] else ""
    if t in INT_BITS:
        return it.resume(st, cont, cap, I(INT_BITS[t] // 8))
    v = mk("sizeof", t)
    it.nonneg.add(v)
    return it.resume(st, cont, cap, v)


# ---------------------------------------------------------------- Option / Result
def _enum_of(p):
    return OPTION if p.startswith("core::option::Option") else RESULT


def _self_cases(it, st, args, c, byref=False):
    path = _enum_of(c["p"])
    v = it.deref(st, args[0]) if byref else args[0]
    return it.cases(st, v, path)


def optres(name, byref=False):
    def d(f):
        for pre in ("core::option::Option::<T>::", "core::result::Result::<T, E>::", "core::option::Option::<&T>::",
                    "core::option::Option::<&mut T>::", "core::result::Result::<&T, E>::"):
            def h(it, st, args, cont, cap, c, f=f):
                out = []
                for s2, n, x in _self_cases(it, st, args, c, byref):
                    good = n in ("Some", "Ok")
                    v = it.payload(x, n) if n != "None" else None
                    out += f(it, s2, good, v, args, cont, cap, c, n)
                return out
            TABLE.setdefault(pre + name, h)
        return f
    return d


def _wrap(c, v):
    return some(v) if _enum_of(c["p"]) == OPTION else ok(v)


def _bad(c, v):
    return NONE if _enum_of(c["p"]) == OPTION else err(v)


@optres("is_some", True)
@optres("is_ok", True)
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, I(good))


@optres("is_none", True)
@optres("is_err", True)
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, I(not good))


@optres("unwrap")
@optres("expect")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, v)
    if not it.panics:
        return []
    it.event(st, "panic", "unwrap", tuple(args), None, c["line"])
    from interp import Outcome
    return [Outcome("panic", None, st, (st.stack[-1].fn["u"], st.stack[-1].bb), it)]


@optres("unwrap_or")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, v if good else args[1])


@optres("unwrap_or_default")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, v)
    t = c["g"][0] if c["g"] else ""
    return it.resume(st, cont, cap, I(0) if t in INT_BITS or t == "bool" else mk("default", t))


@optres("unwrap_or_else")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, v)
    return it.call_closure(st, args[1], [v] if n == "Err" else [], cont, cap, c["line"])


@optres("map")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, _bad(c, v))
    o = _enum_of(c["p"]) == OPTION
    return it.call_closure(st, args[1], [v], it.k_wrap_some if o else it.k_wrap_ok, (cont, cap), c["line"])


@optres("map_err")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, ok(v))
    return it.call_closure(st, args[1], [v], it.k_wrap_err, (cont, cap), c["line"])


@optres("inspect")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, _bad(c, v))
    st.n += 1
    root = ("H", it.fid(st, "cell"))
    st.mem[root] = v
    return it.call_closure(st, args[1], [ref(root)], it._drop_result, (cont, cap, _wrap(c, v)), c["line"])


@optres("and_then")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, _bad(c, v))
    return it.call_closure(st, args[1], [v], cont, cap, c["line"])


@optres("or_else")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, _wrap(c, v))
    return it.call_closure(st, args[1], [v] if n == "Err" else [], cont, cap, c["line"])


@optres("or")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, _wrap(c, v) if good else args[1])


@optres("and")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, args[1] if good else _bad(c, v))


@reg("core::option::Option::<T>::zip")
def opt_zip(it, st, args, cont, cap, c):
    out = []
    for s2, n, x in it.cases(st, args[0], OPTION):
        for s3, m, y in it.cases(s2, args[1], OPTION) if n == "Some" else [(s2, "None", None)]:
            out += it.resume(s3, cont, cap, some(tup(it.payload(x, n), it.payload(y, m))) if m == "Some" else NONE)
    return out


@reg("core::option::Option::<T>::xor")
def opt_xor(it, st, args, cont, cap, c):
    out = []
    for s2, n, x in it.cases(st, args[0], OPTION):
        for s3, m, y in it.cases(s2, args[1], OPTION):
            out += it.resume(s3, cont, cap, NONE if n == m else some(it.payload(x, n) if n == "Some" else it.payload(y, m)))
    return out


@optres("ok_or")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, ok(v) if good else err(args[1]))


@optres("ok_or_else")
def _f(it, st, good, v, args, cont, cap, c, n):
    if good:
        return it.resume(st, cont, cap, ok(v))
    return it.call_closure(st, args[1], [], it.k_wrap_err, (cont, cap), c["line"])


@optres("ok")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, some(v) if good else NONE)


@optres("err")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, NONE if good else some(v))


@optres("map_or")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, args[1])
    return it.call_closure(st, args[2], [v], cont, cap, c["line"])


@optres("map_or_else")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.call_closure(st, args[1], [v] if n == "Err" else [], cont, cap, c["line"])
    return it.call_closure(st, args[2], [v], cont, cap, c["line"])


@optres("is_some_and")
@optres("is_ok_and")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, FALSE)
    return it.call_closure(st, args[1], [v], cont, cap, c["line"])


@optres("is_none_or")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, TRUE)
    return it.call_closure(st, args[1], [v], cont, cap, c["line"])


@optres("cloned")
@optres("copied")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, _wrap(c, it.deref(st, v)) if good else _bad(c, v))


@optres("flatten")
def _f(it, st, good, v, args, cont, cap, c, n):
    return it.resume(st, cont, cap, v if good else NONE)


@optres("filter")
def _f(it, st, good, v, args, cont, cap, c, n):
    if not good:
        return it.resume(st, cont, cap, NONE)
    st.n += 1
    root = ("H", it.fid(st, "flt"))
    st.mem[root] = v
    return it.call_closure(st, args[1], [ref(root)], it.k_filter, (cont, cap, v), c["line"])


def asref(it, st, args, cont, cap, c):
    out = []
    path = _enum_of(c["p"])
    r, p = it.target(args[0])
    last = c["p"].split("::")[-1]
    for s2, n, x in it.cases(st, it.deref(st, args[0]), path):
        if n == "None":
            out += it.resume(s2, cont, cap, NONE)
            continue
        if x.k == "adt" and (path != x.a[0]):
            pass
        inner = ref(r, p + (("as", n), (".", "0")))
        if last in ("as_deref", "as_deref_mut"):
            iv = it.deref(s2, inner)
            if iv.k == "ref":
                inner = iv
        out += it.resume(s2, cont, cap, adt(path, n, (("0", inner),)))
    return out


for pre in ("core::option::Option::<T>::", "core::result::Result::<T, E>::"):
    for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        TABLE[pre + n] = asref


@reg("core::option::Option::<T>::take")
def opt_take(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    v = it.load(st, r, p)
    it.store(st, r, p, NONE)
    if r[0] != "L":
        it.event(st, "store", "*", (ref(r, p), NONE), None, c["line"])
    return it.resume(st, cont, cap, v)


@reg("core::option::Option::<T>::replace", "core::option::Option::<T>::insert")
def opt_replace(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    v = it.load(st, r, p)
    it.store(st, r, p, some(args[1]))
    if c["p"].endswith("insert"):
        return it.resume(st, cont, cap, ref(r, p + (("as", "Some"), (".", "0"))))
    return it.resume(st, cont, cap, v)


# ---------------------------------------------------------------- containers
@reg("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    idx = args[1]
    if idx.k == "ref":
        idx = it.deref(st, idx)
    return it.resume(st, cont, cap, ref(r, p + (("[]", idx),)))


def length(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, it.length(st, it.deref(st, args[0])))


def is_empty(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, it.cmp("Eq", it.length(st, it.deref(st, args[0])), I(0), "usize"))


for cont_ in ("alloc::vec::Vec::<T, A>", "core::slice::<impl [T]>", "alloc::string::String", "core::str::<impl str>",
              "std::collections::hash::map::HashMap::<K, V, S, A>", "std::collections::hash::set::HashSet::<T, S, A>",
              "alloc::collections::vec_deque::VecDeque::<T, A>", "alloc::collections::btree::map::BTreeMap::<K, V, A>",
              "alloc::collections::binary_heap::BinaryHeap::<T, A>", "alloc::collections::btree::set::BTreeSet::<T, A>",
              "std::collections::hash::map::HashMap::<K, V, S>", "std::collections::hash::set::HashSet::<T, S>",
              "tokio::task::join_set::JoinSet::<T>", "alloc::collections::linked_list::LinkedList::<T, A>"):
    TABLE[cont_ + "::len"] = length
    TABLE[cont_ + "::is_empty"] = is_empty


def mapkey(it, st, args):
    k = args[1]
    return it.deref(st, k) if k.k == "ref" else mk("deref", k) if k.k not in ("i", "s") else k


def map_get(it, st, args, cont, cap, c):
    m = it.deref(st, args[0])
    k = mapkey(it, st, args)
    t = mk("mapget", m, k)
    out = []
    last = c["p"].split("::")[-1]
    for s2, n, x in it.cases(st, t, OPTION):
        if last == "contains_key":
            out += it.resume(s2, cont, cap, I(n == "Some"))
        elif n == "None":
            out += it.resume(s2, cont, cap, NONE)
        else:
            out += it.resume(s2, cont, cap, some(mk("ptr", mk("fld", mk("fld", t, ("as", "Some")), (".", "0")))))
    return out


for m in ("std::collections::hash::map::HashMap::<K, V, S, A>", "std::collections::hash::map::HashMap::<K, V, S>",
          "alloc::collections::btree::map::BTreeMap::<K, V, A>"):
    TABLE[m + "::get"] = map_get
    TABLE[m + "::contains_key"] = map_get


@alias("std::collections::hash::set::HashSet::<T, S, A>::contains", "alloc::collections::btree::set::BTreeSet::<T, A>::contains",
       "std::collections::hash::set::HashSet::<T, S>::contains")
def set_contains(it, st, args, cont, cap, c):
    m = it.deref(st, args[0])
    return it.resume(st, cont, cap, mk("setcontains", m, mapkey(it, st, args)))


def slice_get(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    v = it.load(st, r, p)
    idx = args[1]
    if idx.k == "adt":  # range
        lo = hi = None
        f = dict(idx.a[2])
        t = mk("sliceget", v, idx)
        out = []
        for s2, n, x in it.cases(st, t, OPTION):
            out += it.resume(s2, cont, cap, NONE if n == "None" else some(ref(r, p + (("[]", idx),))))
        return out
    out = []
    for s2, b in it.split(st, it.cmp("Lt", idx, it.length(st, v), "usize")):
        out += it.resume(s2, cont, cap, some(ref(r, p + (("[]", idx),))) if b else NONE)
    return out


for s in ("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::get",
          "alloc::collections::vec_deque::VecDeque::<T, A>::get_mut"):
    TABLE[s] = slice_get


def slice_end(it, st, args, cont, cap, c):
    r, p = it.target(args[0])
    v = it.load(st, r, p)
    n = it.length(st, v)
    last = c["p"].split("::")[-1]
    out = []
    for s2, b in it.split(st, it.cmp("Eq", n, I(0), "usize")):
        if b:
            out += it.resume(s2, cont, cap, NONE)
        else:
            i = I(0) if last.startswith(("first", "front")) else ladd(n, I(1), -1)
            out += it.resume(s2, cont, cap, some(ref(r, p + (("[]", i),))))
    return out


for s in ("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut",
          "core::slice::<impl [T]>::last_mut", "alloc::collections::vec_deque::VecDeque::<T, A>::front",
          "alloc::collections::vec_deque::VecDeque::<T, A>::back", "alloc::collections::vec_deque::VecDeque::<T, A>::front_mut",
          "alloc::collections::vec_deque::VecDeque::<T, A>::back_mut"):
    TABLE[s] = slice_end


# ---------------------------------------------------------------- iterators
IT = "core::iter::traits::iterator::Iterator::"


def mk_iter(it, st, v, byval):
    if v.k == "iter":
        return v
    if v.k == "adt" and v.a[0].startswith("core::ops::range::"):
        return mk("iter", "range", v, None)
    return mk("iter", "val" if byval else "ref", v, None)


@reg("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(it, st, args, cont, cap, c):
    v = args[0]
    g = c["g"][0] if c["g"] else ""
    if v.k == "iter" or g.startswith("core::iter") or "Iter<" in g.split("<")[0] + "<":
        return it.resume(st, cont, cap, v)
    return it.resume(st, cont, cap, mk_iter(it, st, v, not g.startswith("&")))


def coll_iter(it, st, args, cont, cap, c):
    last = c["p"].split("::")[-1]
    kind = {"iter": "ref", "iter_mut": "ref", "keys": "key", "values": "value", "values_mut": "value", "drain": "drain",
            "chunks": "chunk", "chars": "val", "bytes": "val", "into_values": "value", "into_keys": "key"}[last]
    return it.resume(st, cont, cap, mk("iter", kind, args[0], None))


for base in ("core::slice::<impl [T]>", "std::collections::hash::map::HashMap::<K, V, S, A>", "std::collections::hash::map::HashMap::<K, V, S>",
             "std::collections::hash::set::HashSet::<T, S, A>", "alloc::collections::vec_deque::VecDeque::<T, A>", "alloc::vec::Vec::<T, A>",
             "alloc::collections::btree::map::BTreeMap::<K, V, A>", "core::option::Option::<T>", "std::collections::hash::map::HashMap::<K, V>",
             "alloc::collections::binary_heap::BinaryHeap::<T, A>", "std::collections::hash::set::HashSet::<T, S>", "core::str::<impl str>",
             "alloc::collections::btree::set::BTreeSet::<T, A>"):
    for n in ("iter", "iter_mut", "keys", "values", "values_mut", "drain", "chunks", "chars", "bytes", "into_values", "into_keys"):
        TABLE[f"{base}::{n}"] = coll_iter

for n in ("map", "filter", "filter_map", "enumerate", "zip", "rev", "cloned", "copied", "skip", "take", "chain", "peekable", "fuse",
          "inspect", "flat_map", "take_while", "skip_while", "step_by", "flatten", "map_while"):
    def adaptor(it, st, args, cont, cap, c, n=n):
        return it.resume(st, cont, cap, mk("iter", n, args[0], tuple(args[1:]) or None))
    TABLE[IT + n] = adaptor


def next_elem(it, st, v, kont, kcap, line, root=None):
    """drives iterator value v once: kont(st, option value, *kcap)"""
    def fin(s, x):
        return kont(s, x, *kcap)
    if v.k != "iter":
        st.n += 1
        e = it.fresh(st, "elem", (v,))
        out = fin(st.copy(), NONE)
        return out + fin(st, some(e))
    kind, src, extra = v.a
    if kind in ("ref", "val", "key", "value", "drain", "chunk", "range"):
        base = src
        if kind == "range":
            f = dict(src.a[2])
            e = it.fresh(st, "elem", (src,))
            out = []
            s0 = st.copy()
            lo, hi = f.get("start"), f.get("end")
            if lo is not None and hi is not None and lo.k == "i" and hi.k == "i" and lo.a[0] >= hi.a[0]:
                return fin(s0, NONE)
            out += fin(s0, NONE)
            if lo is not None:
                it.nonneg.add(e)
                it.assume(st, it.cmp("Ge", e, lo, None), True)
            if hi is not None:
                it.assume(st, it.cmp("Lt", e, hi, None), True)
            return out + fin(st, some(e))
        e = it.fresh(st, "elem", (src,))
        return fin(st.copy(), NONE) + fin(st, some(e))
    if kind in ("rev", "skip", "peekable", "fuse", "take", "step_by"):
        return next_elem(it, st, src, kont, kcap, line)
    if kind in ("cloned", "copied"):
        def k(s, x):
            if x is NONE:
                return fin(s, x)
            return fin(s, some(it.deref(s, it.payload(x, "Some"))))
        return next_elem(it, st, src, k, (), line)
    if kind == "enumerate":
        def k(s, x):
            if x is NONE:
                return fin(s, x)
            i = it.fresh(s, "index", (src,))
            it.nonneg.add(i)
            return fin(s, some(tup(i, it.payload(x, "Some"))))
        return next_elem(it, st, src, k, (), line)
    if kind == "zip":
        def k(s, x):
            if x is NONE:
                return fin(s, x)
            def k2(s2, y):
                if y is NONE:
                    return fin(s2, y)
                return fin(s2, some(tup(it.payload(x, "Some"), it.payload(y, "Some"))))
            o = extra[0]
            if o.k != "iter":
                o = mk_iter(it, s, o, True)
            return next_elem(it, s, o, k2, (), line)
        return next_elem(it, st, src, k, (), line)
    if kind in ("map", "filter_map", "map_while"):
        def k(s, x):
            if x is NONE:
                return fin(s, x)
            return it.call_closure(s, extra[0], [it.payload(x, "Some")], it.k_iter_map, (kind, kont, kcap), line)
        return next_elem(it, st, src, k, (), line)
    if kind in ("filter", "take_while", "skip_while", "inspect"):
        def k(s, x):
            if x is NONE:
                return fin(s, x)
            e = it.payload(x, "Some")
            s.n += 1
            root = ("H", it.fid(s, "flt"))
            s.mem[root] = e
            return it.call_closure(s, extra[0], [ref(root)], it.k_iter_filter, (kind, e, kont, kcap), line)
        return next_elem(it, st, src, k, (), line)
    if kind == "chain":
        o = extra[0]
        if o.k != "iter":
            o = mk_iter(it, st, o, True)
        return next_elem(it, st.copy(), src, kont, kcap, line) + next_elem(it, st, o, kont, kcap, line)
    e = it.fresh(st, "elem", (v,))
    return fin(st.copy(), NONE) + fin(st, some(e))


@reg(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back", IT + "peek")
def it_next(it, st, args, cont, cap, c):
    v = it.deref(st, args[0])
    if v.k == "ref":
        v = it.deref(st, v)
    return next_elem(it, st, v, it.resume_k, (cont, cap), c["line"])


def driven(name):
    def d(f):
        TABLE[IT + name] = f
        return f
    return d


def _itval(it, st, v):
    n = 0
    while v.k == "ref" and n < 3:
        v = it.deref(st, v)
        n += 1
    return v


@driven("all")
@driven("any")
def it_all(it, st, args, cont, cap, c):
    v = _itval(it, st, args[0])
    is_all = c["p"].endswith("all")

    def k(s, x, depth):
        if x is NONE:
            return it.resume(s, cont, cap, I(is_all))
        return it.call_closure(s, args[1], [it.payload(x, "Some")], k2, (depth,), c["line"])

    def k2(s, b, depth):
        out = []
        for s2, t in it.split_bool(s, b):
            if t != is_all:
                out += it.resume(s2, cont, cap, I(t))
            elif depth > 0:
                out += next_elem(it, s2, v, k, (depth - 1,), c["line"])
            else:
                out += it.resume(s2, cont, cap, I(is_all))
        return out
    return next_elem(it, st, v, k, (it.max_visits - 1,), c["line"])


@driven("find")
@driven("position")
@driven("find_map")
def it_find(it, st, args, cont, cap, c):
    v = _itval(it, st, args[0])
    last = c["p"].split("::")[-1]

    def k(s, x):
        if x is NONE:
            return it.resume(s, cont, cap, NONE)
        e = it.payload(x, "Some")
        a = e
        if last == "find":
            s.n += 1
            root = ("H", it.fid(s, "flt"))
            s.mem[root] = e
            a = ref(root)
        return it.call_closure(s, args[1], [a], k2, (e,), c["line"])

    def k2(s, b, e):
        if last == "find_map":
            return it.resume(s, cont, cap, b)
        out = []
        for s2, t in it.split_bool(s, b):
            if t:
                if last == "position":
                    e = it.fresh(s2, "index", (e,))
                    it.nonneg.add(e)
                out += it.resume(s2, cont, cap, some(e))
            else:
                out += it.resume(s2, cont, cap, NONE)
        return out
    return next_elem(it, st, v, k, (), c["line"])


@driven("for_each")
@driven("count")
@driven("sum")
@driven("collect")
@driven("last")
@driven("max")
@driven("min")
@driven("max_by_key")
@driven("min_by_key")
@driven("product")
@driven("unzip")
@driven("partition")
def it_collect(it, st, args, cont, cap, c):
    v = _itval(it, st, args[0])
    last = c["p"].split("::")[-1]
    dt = c["desty"] or ""

    def k(s, x):
        if x is NONE:
            return it.resume(s, cont, cap, UNIT if last == "for_each" else NONE if dt.startswith("core::option") and last != "collect"
                             else (ok(mk("coll", v)) if dt.startswith("core::result") else some(mk("coll", v)) if dt.startswith("core::option")
                                   else I(0) if last in ("count", "sum") and dt in INT_BITS else mk("coll", v)))
        e = it.payload(x, "Some")
        if last == "for_each":
            return it.call_closure(s, args[1], [e], k2, (), c["line"])
        if last in ("collect",):
            if dt.startswith("core::result"):
                out = []
                for s2, n, y in it.cases(s, e, RESULT):
                    out += it.resume(s2, cont, cap, err(it.payload(y, "Err")) if n == "Err" else ok(mk("coll", v, it.payload(y, "Ok"))))
                return out
            if dt.startswith("core::option"):
                out = []
                for s2, n, y in it.cases(s, e, OPTION):
                    out += it.resume(s2, cont, cap, NONE if n == "None" else some(mk("coll", v, it.payload(y, "Some"))))
                return out
            return it.resume(s, cont, cap, mk("coll", v, e))
        r = it.fresh(s, last, (e,))
        if last in ("count",) or dt in INT_BITS:
            it.nonneg.add(r)
        return it.resume(s, cont, cap, some(r) if dt.startswith("core::option") else r)

    def k2(s, b):
        return it.resume(s, cont, cap, UNIT)
    return next_elem(it, st, v, k, (), c["line"])


# ---------------------------------------------------------------- closures called through the Fn traits
@reg("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def fn_call(it, st, args, cont, cap, c):
    t = args[1]
    if t.k == "adt" and t.a[0] == "tuple":
        spread = [v for _, v in t.a[2]]
    else:
        spread = [it.proj(t, (".", "0"))]
    return it.call_closure(st, args[0], spread, cont, cap, c["line"])


# ---------------------------------------------------------------- integers
def checked(op):
    def f(it, st, args, cont, cap, c):
        t = c["p"].split("<impl ")[1].split(">")[0]
        a, b = args[0], (args[1] if len(args) > 1 else I(0))
        val = it.arith(op, a, b, t) if op != "Neg" else lmul(a, -1)
        if a.k == "i" and b.k == "i" and val.k == "i":
            lo, hi = (0, (1 << INT_BITS[t]) - 1) if t[0] == "u" else (-(1 << INT_BITS[t] - 1), (1 << INT_BITS[t] - 1) - 1)
            return it.resume(st, cont, cap, some(val) if lo <= val.a[0] <= hi else NONE)
        o = mk("checked", op, a, b, t)
        out = []
        for s2, n, x in it.cases(st, o, OPTION):
            out += it.resume(s2, cont, cap, NONE if n == "None" else some(val))
        return out
    return f


for ity in INT_BITS:
    for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem"), ("neg", "Neg")):
        TABLE[f"core::num::<impl {ity}>::checked_{nm}"] = checked(op)


def sat_sub(it, st, args, cont, cap, c):
    t = c["p"].split("<impl ")[1].split(">")[0]
    a, b = args
    if t[0] != "u":
        return it.resume(st, cont, cap, mk("pure", "saturating_sub", (a, b)))
    out = []
    for s2, lt in it.split(st, it.cmp("Le", a, b, t)):
        out += it.resume(s2, cont, cap, I(0) if lt else ladd(a, b, -1))
    return out


for ity in INT_BITS:
    TABLE[f"core::num::<impl {ity}>::saturating_sub"] = sat_sub


@reg("core::ops::arith::Add::add", "core::ops::arith::Sub::sub", "core::ops::arith::Mul::mul", "core::ops::arith::Div::div",
     "core::ops::arith::Rem::rem", "core::ops::arith::Neg::neg")
def op_arith(it, st, args, cont, cap, c):
    g = c["g"]
    t = g[0].lstrip("&") if g else ""
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg"}[c["p"].split("::")[-1]]
    vs = [strip(it, st, a, g[i] if i < len(g) else (g[0] if g else "")) for i, a in enumerate(args)]
    if op == "Neg":
        return it.resume(st, cont, cap, lmul(vs[0], -1) if t in INT_BITS else mk("op", "Neg", vs[0]))
    if t in INT_BITS or t in ("f32", "f64"):
        return it.resume(st, cont, cap, it.arith(op, vs[0], vs[1], t))
    return it.resume(st, cont, cap, mk("op", op, vs[0], vs[1]))


@reg("core::ops::range::RangeInclusive::<Idx>::new")
def range_incl(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, adt("core::ops::range::RangeInclusive", "", (("start", args[0]), ("last", args[1]))))


def contains_range(it, st, args, cont, cap, c):
    r = it.deref(st, args[0])
    x = it.deref(st, args[1])
    f = dict(r.a[2]) if r.k == "adt" else {}
    t = c["g"][0] if c["g"] else None
    if t not in INT_BITS:
        return it.resume(st, cont, cap, mk("pure", "range_contains", (r, x)))
    v = TRUE
    if "start" in f:
        v = it.cmp("Ge", x, f["start"], t)
    for k, op in (("end", "Lt"), ("last", "Le")):
        if k in f:
            b = it.cmp(op, x, f[k], t)
            v = b if v is TRUE else mk("op", "BitAnd", v, b)
    return it.resume(st, cont, cap, v)


for s in ("core::ops::range::Range::<Idx>::contains", "core::ops::range::RangeInclusive::<Idx>::contains", "core::ops::range::RangeFrom::<Idx>::contains",
          "core::ops::range::RangeTo::<Idx>::contains"):
    TABLE[s] = contains_range


@reg("core::bool::<impl bool>::then")
def bool_then(it, st, args, cont, cap, c):
    out = []
    for s2, b in it.split_bool(st, args[0]):
        if b:
            out += it.call_closure(s2, args[1], [], it.k_wrap_some, (cont, cap), c["line"])
        else:
            out += it.resume(s2, cont, cap, NONE)
    return out


@reg("core::bool::<impl bool>::then_some")
def bool_then_some(it, st, args, cont, cap, c):
    out = []
    for s2, b in it.split_bool(st, args[0]):
        out += it.resume(s2, cont, cap, some(args[1]) if b else NONE)
    return out


@reg("core::default::Default::default")
def default(it, st, args, cont, cap, c):
    t = c["g"][0] if c["g"] else ""
    if t in INT_BITS or t == "bool":
        return it.resume(st, cont, cap, I(0))
    if t.startswith("core::option::Option"):
        return it.resume(st, cont, cap, NONE)
    return it.resume(st, cont, cap, mk("default", t))


def newcoll(it, st, args, cont, cap, c):
    return it.resume(st, cont, cap, mk("default", c["p"].split("::")[-2] if "::<" not in c["p"] else c["p"].split("::")[-3]))


for s in ("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::new",
          "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::set::HashSet::<T>::new",
          "alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity",
          "std::collections::hash::map::HashMap::<K, V>::with_capacity", "alloc::string::String::with_capacity"):
    TABLE[s] = newcoll


@reg("std::panic::catch_unwind")
def _f(it, st, args, cont, cap, c):
    """the closure's result; a panic inside it ends the path (it is reported as a panic)"""
    f = args[0]
    if f.k == "adt" and f.a[0].endswith("AssertUnwindSafe"):
        f = f.a[2][0][1]
    return it.call_closure(st, f, [], it.k_wrap_ok, (cont, cap), c["line"])


def _exact(nm, op):
    """saturating / wrapping / overflowing arithmetic on known integers"""
    def f(it, st, args, cont, cap, c):
        t = c["p"].split("<impl ")[1].split(">")[0]
        a, b = args
        lo, hi = (0, (1 << INT_BITS[t]) - 1) if t[0] == "u" else (-(1 << INT_BITS[t] - 1), (1 << INT_BITS[t] - 1) - 1)
        if a.k == "i" and b.k == "i":
            v = {"add": a.a[0] + b.a[0], "sub": a.a[0] - b.a[0], "mul": a.a[0] * b.a[0]}[op]
            if nm == "saturating":
                v = min(hi, max(lo, v))
            else:
                v = (v - lo) % (hi - lo + 1) + lo
            return it.resume(st, cont, cap, I(v))
        r = mk("pure", f"{nm}_{op}", (a, b))
        if t[0] == "u":
            it.nonneg.add(r)
        return it.resume(st, cont, cap, r)
    return f


for ity in INT_BITS:
    for nm, op in (("saturating", "add"), ("saturating", "mul"), ("wrapping", "add"), ("wrapping", "sub"), ("wrapping", "mul")):
        TABLE.setdefault(f"core::num::<impl {ity}>::{nm}_{op}", _exact(nm, op))


prev_parse = TABLE.get("core::str::<impl str>::parse")


def str_parse(it, st, args, cont, cap, c):
    """parsing a String always succeeds"""
    if c["g"] and c["g"][0] == "alloc::string::String":
        v = args[0]
        while v.k == "ref":
            v = it.deref(st, v)
        return it.resume(st, cont, cap, ok(v))
    if prev_parse:
        return prev_parse(it, st, args, cont, cap, c)
    return it.opaque_call(st, c["p"], c["r"], c["g"], args, c["argty"], cont, cap, c["line"], c["desty"], c["u"])


TABLE["core::str::<impl str>::parse"] = str_parse
