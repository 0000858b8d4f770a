"""The resolved program: lookup by public path, call graph, drop impls, predecessors."""
import facts as _facts
from interp import V


class AnchorError(Exception):
    """something a rule is anchored to is not in the analysed program"""


class Prog:
    def __init__(self, recs=None):
        F = recs or _facts.load()
        self.fn, self.adt, self.impl, self.trait = F["fn"], F["adt"], F["impl"], F["trait"]
        self.key, self.files = F["key"], F["files"]
        self.by_path = {}
        self.children = {}
        for u, f in self.fn.items():
            f["u"] = u
            self.by_path.setdefault(f["p"], []).append(f)
            if f.get("parent"):
                self.children.setdefault(f["parent"], []).append(u)
        self.drop_of = {}
        self.trait_impls, self.assoc = {}, {}
        for u, f in self.fn.items():
            if f["kind"] == "const" and f.get("trait"):
                self.assoc.setdefault((f["trait"].split("<")[0], f["p"].rsplit("::", 1)[1]), []).append(f)
            if f["kind"] == "fn" and f.get("trait"):
                name = f["p"].rsplit("::", 1)[1]
                self.trait_impls.setdefault((f["trait"].split("<")[0], name), []).append(f)
                if f["trait"] == "core::ops::drop::Drop":
                    self.drop_of[f["self"].split("<")[0]] = u
        self._derives = {(i["trait"], i["self"].split("<")[0]) for i in self.impl if i["derived"]}
        self._preds = {}
        self._callees = None

    def derives(self, adt, trait):
        return (trait, adt) in self._derives

    def preds(self, fn):
        p = self._preds.get(fn["u"])
        if p is None:
            p = [0] * len(fn["blocks"])
            p[0] = 1
            for s, t, c in fn["blocks"]:
                for x in succs(t):
                    p[x] += 1
            self._preds[fn["u"]] = p
        return p

    def find(self, path, kind="fn"):
        r = [f for f in self.by_path.get(path, []) if f["kind"] == kind]
        if not r:
            r = [f for p, fs in self.by_path.items() if p.endswith("::" + path) for f in fs if f["kind"] == kind]
        return r

    def get(self, path):
        r = self.find(path)
        if len(r) != 1:
            raise AnchorError(f"function `{path}`: {len(r)} found")
        return r[0]

    def method(self, trait, ty, name):
        """the body of `impl trait for ty`'s method"""
        r = [f for f in self.trait_impls.get((trait, name), []) if f["self"].split("<")[0] == ty]
        if len(r) != 1:
            raise AnchorError(f"<{ty} as {trait}>::{name}: {len(r)} found")
        return r[0]

    def methods_of(self, ty):
        return [f for f in self.fn.values() if f["kind"] == "fn" and f.get("self") and f["self"].split("<")[0] == ty]

    def enum(self, path):
        a = self.adt.get(path)
        if a is None:
            raise AnchorError(f"type `{path}` not found")
        return a

    def dispatch_types(self, p, g):
        """trait-method call resolved through its (substituted) type arguments"""
        tr, _, name = p.rpartition("::")
        tr = tr.split("<")[0]
        if p in ("core::convert::Into::into", "core::convert::TryInto::try_into") and len(g) == 2:
            tr, name, g = ("core::convert::From", "from", (g[1], g[0])) if name == "into" else ("core::convert::TryFrom", "try_from", (g[1], g[0]))
        c = self.trait_impls.get((tr, name))
        if not c or not g:
            return None
        m = [f for f in c if f["self"] == g[0] and tuple(f["ta"]) == tuple(g[1:1 + len(f["ta"])])]
        return m[0] if len(m) == 1 else None

    def dispatch(self, it, st, p, args, g):
        """trait-method call that the compiler did not resolve: by the receiver's known type, or
        the only implementation in the crate"""
        tr, _, name = p.rpartition("::")
        tr = tr.split("<")[0]
        c = self.trait_impls.get((tr, name))
        if not c:
            return None
        if args:
            v = args[0]
            n = 0
            while v.k == "ref" and n < 3:
                v = it.deref(st, v)
                n += 1
            if v.k == "adt":
                m = [f for f in c if f["self"].split("<")[0] == v.a[0]]
                if len(m) == 1:
                    return m[0]
                return None
        return None

    # ---- call graph over resolved callees (closures and async bodies count as called by their parent)
    def callees(self):
        if self._callees is None:
            self._callees = {}
            for u, f in self.fn.items():
                out = []
                for bi, (stmts, t, cl) in enumerate(f["blocks"]):
                    if cl:
                        continue
                    for s in stmts:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                            out.append((s[2][3], s[3], "closure"))
                        if s[0] == "=":
                            for o in rv_operands(s[2]):
                                if isinstance(o, dict) and o.get("k") == "fn" and o.get("u"):
                                    out.append((o["u"], s[3], "ref"))
                    if t[0] == "call":
                        fo = t[1]
                        if isinstance(fo, dict) and fo.get("k") == "fn":
                            if fo.get("u") and fo["u"] in self.fn:
                                out.append((fo["u"], t[6], "call"))
                            elif not fo.get("r"):
                                tr, _, name = fo["p"].rpartition("::")
                                for m in self.trait_impls.get((tr.split("<")[0], name), []):
                                    out.append((m["u"], t[6], "dyn"))
                        for o in t[2]:
                            if isinstance(o, dict) and o.get("k") == "fn" and o.get("u") in self.fn:
                                out.append((o["u"], t[6], "ref"))
                self._callees[u] = out
        return self._callees

    def reach(self, uid, stop=None):
        seen, st = {uid}, [uid]
        cs = self.callees()
        while st:
            x = st.pop()
            for y, _, _ in cs.get(x, ()):
                if y not in seen and not (stop and stop(y)):
                    seen.add(y)
                    st.append(y)
        return seen

    def calls(self, f):
        """(block index, callee const or operand, args, dest, line) for each non-cleanup call"""
        for bi, (stmts, t, cl) in enumerate(f["blocks"]):
            if not cl and t[0] == "call":
                yield bi, t[1], t[2], t[3], t[6]


def succs(t, unwind=False):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[5]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "yield":
        return [t[2]]
    return []


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k in ("cast", "un"):
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "agg":
        return rv[2]
    return []
