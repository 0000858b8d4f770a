"""Encodings: what is written is what is read back."""
import re
from interp import *
from colls import L, M, elems, pairs
from ctx import sym, unit, cell, last, Session
from prog import AnchorError

POST = "postcard::"


def persisted(P):
    """the local types handed to the storage codec, and the local types they contain"""
    roots = set()
    for f in P.fn.values():
        for _, cal, *_ in P.calls(f):
            if isinstance(cal, dict) and cal.get("p", "").startswith(POST):
                roots.update(x for g in cal["g"] for x in re.findall(r"[\w:]+", g) if x in P.adt)
    todo, seen = sorted(roots), {}
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen[t] = P.adt[t]
        for v in P.adt[t]["variants"]:
            for fl in v[2]:
                todo += [x for x in re.findall(r"[\w:]+", fl[1]) if x in P.adt]
    return roots, seen


# fields that are deliberately not stored: the schema of a row travels in the catalog
# and a row's position is where it is stored
UNSTORED = {("storage::table::record::Record", "schema"), ("storage::table::record::Record", "rid"), ("storage::table::tuple::Tuple", "rid")}


def flat(it, st, v):
    while v.k == "ref":
        v = it.deref(st, v)
    return v


def writes(c, f, val):
    """the sequence of values `serialize` hands to the serializer, one list per path"""
    out = []

    def icept(it, st, p, r, u, args, line):
        n = last(p)
        if n in ("serialize_struct", "serialize_tuple_struct", "serialize_tuple", "serialize_seq"):
            return [(st, ok(sym("state")))]
        if n in ("serialize_struct_variant", "serialize_tuple_variant"):
            it.event(st, "call", "put", (mk("variant", args[2].a[0]),), None, line)
            return [(st, ok(sym("state")))]
        if n == "serialize_unit_variant":
            it.event(st, "call", "put", (mk("variant", args[2].a[0]),), None, line)
            return [(st, ok(sym("done")))]
        if n == "serialize_newtype_variant":
            it.event(st, "call", "put", (mk("variant", args[2].a[0]),), None, line)
            it.event(st, "call", "put", (flat(it, st, args[4]),), None, line)
            return [(st, ok(sym("done")))]
        if n == "serialize_newtype_struct":
            it.event(st, "call", "put", (flat(it, st, args[2]),), None, line)
            return [(st, ok(sym("done")))]
        if n in ("serialize_field", "serialize_element"):
            it.event(st, "call", "put", (flat(it, st, args[-1]),), None, line)
            return [(st, ok(UNIT))]
        if n == "end":
            return [(st, ok(sym("done")))]
        return None
    mem = {("H", "self"): val}
    for o in c.explore(f, [ref(("H", "self")), sym("ser")], mem, seq=True, intercept=icept):
        out.append((o.kind, [e.args[0] for e in o.events if e.name == "put"], o.value))
    return out


def reads(c, visit, field, script):
    """the value the visitor builds from the given sequence"""
    left = list(script)

    def icept(it, st, p, r, u, args, line):
        n = last(p)
        if n == "next_element":
            return [(st, ok(some(left.pop(0)) if left else NONE))]
        if n == "variant" and "EnumAccess" in p:
            d = left.pop(0)
            return [(st, ok(tup(field(d.a[0]), sym("access"))))]
        if n == "unit_variant":
            return [(st, ok(UNIT))]
        if n == "newtype_variant":
            return [(st, ok(left.pop(0)))]
        if n in ("tuple_variant", "struct_variant"):
            return None
        return None
    out = []
    for o in c.explore(visit, [sym("visitor"), sym("access")], {}, seq=True, intercept=icept):
        out.append((o.kind, o.value, list(left)))
    return out


def serde_fns(P):
    """type -> (serialize, visitor methods, field visitor methods) of the derived or hand-written serde impls"""
    out = {}
    for p, fs in P.by_path.items():
        for f in fs:
            if f["kind"] != "fn":
                continue
            m = re.search(r"impl serde_core::ser::Serialize for ([\w:]+)>::serialize$", p) or re.search(r"^<([\w:]+) as serde_core::ser::Serialize>::serialize$", p)
            if m:
                out.setdefault(m.group(1), [None, [], {}])[0] = f
            m = re.search(r"Deserialize<'de> for ([\w:]+)>::deserialize::(?:.*::)?(__Visitor<'de>|__FieldVisitor) as .*>::(\w+)$", p)
            if m:
                e = out.setdefault(m.group(1), [None, [], {}])
                if m.group(2) == "__FieldVisitor":
                    if "::visit_enum::" not in p:
                        e[2][m.group(3)] = f
                else:
                    e[1].append((m.group(3), f))
    return out


def codec(c):
    """E03: stored types decode to what was encoded"""
    P = c.P
    roots, types = persisted(P)
    S = serde_fns(P)
    for t in sorted(set(types) | {t for t, e in S.items() if e[0] and e[1] and t in P.adt}):
        ser, vis, fld = S.get(t, [None, [], {}])
        a = P.adt[t]
        if ser is None and not vis and t not in types:
            continue
        c.require(ser is not None and vis, f"serde:{t}", f"{t} is stored but has no serializer and visitor", None)
        if ser is None or not vis:
            continue
        enum = a["kind"] == "Enum"
        seqs = [f for n, f in vis if n == "visit_seq"]
        main = [f for n, f in vis if n == ("visit_enum" if enum else "visit_seq")]
        short = last(t)

        def field(d):
            o = c.explore(fld["visit_u64"], [sym("fv"), I(d)], {}, seq=True)
            v = o[0].value
            return v.a[2][0][1] if v.k == "adt" and v.a[1] == "Ok" else mk("nofield")
        for v in a["variants"]:
            val = adt(t, v[0] if enum else "", tuple((fl[0], mk("arg", 0, fl[0])) for fl in v[2]))
            name = f"{short}::{v[0]}" if enum else short
            w = writes(c, ser, val)
            good = [x for x in w if x[0] == "return" and x[2].k == "adt" and x[2].a[1] == "Ok"]
            c.require(len(w) == 1 and len(good) == 1, f"write:{name}", f"writing a {name}: {len(good)} of {len(w)} paths write it", ser)
            if not good:
                continue
            put = good[0][1]
            got = reads(c, main[0], field, put)
            back = None
            if len(got) == 1 and got[0][0] == "return":
                r = got[0][1]
                if r.k == "adt" and r.a[1] == "Ok" and not got[0][2]:
                    back = r.a[2][0][1]
                elif "_variant(" in show(r):
                    cands = [x for f in seqs for x in reads(c, f, field, put[1:])]
                    cands = [x[1].a[2][0][1] for x in cands if x[0] == "return" and x[1].k == "adt" and x[1].a[1] == "Ok" and not x[2]]
                    cands = [x for x in cands if x.k == "adt" and x.a[1] == v[0]]
                    back = cands[0] if len(cands) == 1 else None
            free = {fl[0] for fl in v[2] if (t, fl[0]) in UNSTORED}
            same = back is not None and back.k == "adt" and back.a[0] == t and back.a[1] == val.a[1] and \
                all(dict(back.a[2]).get(n) == x for n, x in val.a[2] if n not in free)
            c.require(same, f"roundtrip:{name}", f"a {name} written as {[show(x) for x in put]} is read back as {show(back) if back is not None else [show(x[1]) for x in got]}"[:400], main[0],
                      what="stored shapes that round-trip")
    hand(c)
    c.floor("stored shapes that round-trip", 60)
    c.floor("hand-written encodings", 16)


def one(c, f, args, mem, key, what, icept=None):
    os = [o for o in c.explore(f, args, mem, seq=True, intercept=icept)]
    c.require(len(os) == 1 and os[0].kind == "return", key, f"{what}: {[o.kind for o in os]}", f)
    return os[0].value if len(os) == 1 and os[0].kind == "return" else None


def utf8(it, st, p, r, u, args, line):
    if last(p) == "from_utf8":
        return [(st, ok(args[0]))]
    if last(p) == "to_string":
        return [(st, flat(it, st, args[0]))]
    return None


def hand(c):
    """the encodings written by hand"""
    P = c.P
    H = lambda n: ref(("H", n))
    what = "hand-written encodings"
    # record ids
    rid = c.obj("common::rid::RID", "r", page_id=mk("arg", 0, "page"), slot_num=mk("arg", 0, "slot"))
    enc, dec = P.get("common::rid::RID::to_bytes_le"), P.get("common::rid::RID::try_deserialize")
    b = one(c, enc, [H("r")], {("H", "r"): rid}, "rid:enc", "encoding a record id")
    v = b and one(c, dec, [H("b")], {("H", "b"): b}, "rid:dec", "decoding a record id")
    c.require(v == some(rid), "rid", f"a record id encoded and decoded becomes {show(v) if v else None}", dec, what=what)
    # values as key bytes
    VAL, VALUE, TID = "types_db::value::Val", "types_db::value::Value", "types_db::type_id::TypeId"
    enc, dec = P.get(VALUE + "::as_bytes"), P.get(VALUE + "::deserialize_from")
    text = lambda: L(*[mk("arg", 0, f"ch{i}") for i in range(3)])
    for val, ty in ([(n, n) for n in ("Boolean", "TinyInt", "SmallInt", "Integer", "BigInt", "Decimal", "Float", "Timestamp", "Date", "Time", "Interval", "Binary", "JSON", "UUID")]
                    + [("VarLen", "VarChar"), ("ConstLen", "Char"), ("Point", "Point")]):
        pays = [text()] if val in ("Binary", "JSON", "UUID", "VarLen", "ConstLen") else [I(0), I(1)] if val == "Boolean" else [mk("arg", 0, "payload")]
        for pay in pays:
            fs = (("0", pay), ("1", mk("arg", 0, "payload2"))) if val == "Point" else (("0", pay),)
            x = adt(VAL, val, fs)
            mem = {("H", "v"): c.obj(VALUE, "v", value_=x, type_id_=unit(TID, ty))}
            b = one(c, enc, [H("v")], mem, f"bytes:{val}:enc", f"encoding a {val}")
            if b is None:
                continue
            r = one(c, dec, [H("b"), unit(TID, ty)], {("H", "b"): b}, f"bytes:{val}:dec", f"decoding a {ty}", utf8)
            if r is None:
                continue
            g = dict(r.a[2]) if r.k == "adt" else {}
            c.require(g.get("value_") == x and g.get("type_id_") == unit(TID, ty), f"bytes:{val}:{show(pay)}", f"a {val} encoded and decoded as {ty} becomes {show(g.get('value_')) if g else show(r)} of type {show(g.get('type_id_')) if g else '?'}", dec, what=what)
    # table rows of the system catalog
    row = "catalog::system_catalog::TableCatalogRow"
    enc, dec = P.get(row + "::to_values"), P.get(row + "::from_tuple")
    for oid, first, end in ((7, 3, 4), (0, 0, 0), ((1 << 64) - 1, (1 << 63), (1 << 64) - 1), (1 << 31, (1 << 32) + 5, (1 << 48) + 9),
                            ((1 << 40) + 1, (1 << 16) + 2, (1 << 33) - 1), (300, 1 << 15, 1 << 8)):
        x = c.obj(row, "row", table_oid=I(oid), table_name=sym("name"), first_page_id=I(first), last_page_id=I(end), schema_bin=sym("schema"))
        vs = one(c, enc, [H("row")], {("H", "row"): x}, f"row:{oid}:enc", "encoding a catalog row")
        if vs is None:
            continue
        r = one(c, dec, [H("t")], {("H", "t"): c.obj("storage::table::tuple::Tuple", "t", values=vs)}, f"row:{oid}:dec", "decoding a catalog row")
        c.require(r == some(x), f"row:{oid}", f"a table's catalog row is read back as {show(r) if r else None} instead of {show(x)}", dec, what=what)
