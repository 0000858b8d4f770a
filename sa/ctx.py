"""What a rule sees: the program, reporting, and the measured coverage."""
import os
import pickle
import traceback

from interp import Interp, mk, adt, I, show, V, ref, OPTION, RESULT, STD_ENUM
from prog import AnchorError


class Ctx:
    def __init__(self, pid, P, tier="quick"):
        self.pid, self.P, self.tier = pid, P, tier
        self.violations = []
        self.obligations = 0
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.counts = {}
        self.samples = []
        self.rule_text = ""
        self.level = "other"
        self.trusted = ["rustc's MIR construction (nightly)", "the MIR-facts driver", "the abstract interpreter and its std-library semantics"]
        self.floors = {}

    # -- reporting
    def violation(self, key, message, file=None, line=0, extra=None, counts=True):
        self.violations.append({"property": self.pid, "key": key, "message": message, "file": file, "line": line,
                                "extra": extra, "counts": counts})

    def require(self, cond, key, message, fn=None, line=None, extra=None, what=None):
        """one obligation"""
        self.obligations += 1
        if what:
            self.count(what)
        if len(self.samples) < 12 and self.obligations % 7 == 1:
            self.samples.append({"obligation": key, "ok": bool(cond)})
        if not cond:
            self.violation(key, message, fn["file"] if fn else None, (line or fn["line"]) if fn else (line or 0), extra)
        return cond

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, n):
        self.floors[k] = n

    def finish_floors(self):
        for k, n in self.floors.items():
            if self.counts.get(k, 0) < n:
                self.violation(f"floor:{k}", f"only {self.counts.get(k,0)} instances of `{k}` analysed; {n} were confirmed by hand "
                               "(the rule would pass vacuously)", None, 0, counts=False)

    def parallel(self, items, run, n=8):
        """run(self, item) for every item, in forked processes whose reports are merged here"""
        items = list(items)
        n = max(1, min(n, len(items), os.cpu_count() or 1))
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    c = Ctx(self.pid, self.P, self.tier)
                    why = None
                    try:
                        for x in items[k::n]:
                            run(c, x)
                    except AnchorError as e:
                        why = str(e)
                    out = pickle.dumps((why, c.violations, c.obligations, c.functions, c.paths, c.sites, c.counts, c.samples))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        failed = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                out = f.read()
            if os.waitpid(pid, 0)[1] or not out:
                failed.append("an analysis process ended early")
                continue
            why, vs, ob, fs, pa, si, co, sa = pickle.loads(out)
            if why:
                failed.append(why)
            self.violations += vs
            self.obligations += ob
            self.functions |= fs
            self.paths += pa
            self.sites += si
            for a, b in co.items():
                self.count(a, b)
            self.samples = (self.samples + sa)[:12]
        if failed:
            raise AnchorError(failed[0])

    # -- analysis helpers
    def fn(self, path):
        return self.P.get(path)

    def interp(self, **kw):
        return Interp(self.P, **kw)

    def explore(self, f, args=None, mem=None, facts=None, **kw):
        """all abstract paths of f"""
        if isinstance(f, str):
            f = self.P.get(f)
        it = kw.pop("it", None) or Interp(self.P, **kw)
        outs = it.explore(f, args, facts, mem)
        self.functions |= {self.P.fn[u]["p"] for u in it.entered}
        self.paths += len(outs)
        if it.truncated:
            self.violation("truncated:" + f["p"], f"{f['p']}: the abstract paths exceed the bound; nothing is claimed", f["file"], f["line"], counts=False)
        if not outs:
            raise AnchorError(f"{f['p']} has no complete abstract path")
        return outs

    def variants(self, path):
        a = self.P.adt.get(path)
        if a is None:
            raise AnchorError(f"type {path} not found")
        return [v[0] for v in a["variants"]]

    def obj(self, path, name, **fields):
        """a struct value with the given fields and symbols elsewhere"""
        a = self.P.adt.get(path)
        if a is None:
            raise AnchorError(f"type {path} not found")
        have = [f[0] for f in a["variants"][0][2]]
        for k in fields:
            if k not in have:
                raise AnchorError(f"{path} has no field {k}")
        return adt(path, "", tuple((f, fields[f] if f in fields else mk("arg", 0, f"{name}.{f}")) for f in have))


def sym(name):
    return mk("arg", 0, name)


def unit(path, variant):
    return adt(path, variant, ())


def cell(v, name="c"):
    """(pointer value, memory) with the pointer designating v"""
    root = ("H", "arg:" + name)
    return ref(root), {root: v}


def last(p):
    return p.split("::")[-1]


class Session:
    """calls made one after another on the same store, each with a single outcome"""

    def __init__(self, c, mem=None, facts=None, **kw):
        self.c, self.mem, self.facts, self.kw, self.n = c, dict(mem or {}), dict(facts or {}), kw, 0
        self.events, self.o = [], None

    def alloc(self, v):
        self.n += 1
        root = ("H", f"s{id(self)}.{self.n}")
        self.mem[root] = v
        return ref(root)

    def fork(self):
        s = Session(self.c, self.mem, self.facts, **self.kw)
        s.n, s.o = self.n + 1000, self.o
        return s

    def outcomes(self, f, *args, **kw):
        return self.c.explore(f, list(args), self.mem, self.facts, **{"seq": True, "panics": True, "max_ctr": 20000, **self.kw, **kw})

    def call(self, f, *args, **kw):
        """(kind, value) of the only outcome; the store advances"""
        os = self.outcomes(f, *args, **kw)
        ks = {(o.kind, o.value) for o in os}
        if len(ks) != 1:
            raise AnchorError(f"{f if isinstance(f, str) else f['p']}: {len(ks)} outcomes where one is expected: {list(ks)[:3]}")
        o = self.o = os[0]
        self.mem = {k: v for k, v in o.state.mem.items() if k[0] == "H"}
        self.facts = dict(o.state.facts)
        self.events = o.events
        return o.kind, o.value

    def at(self, p, *path):
        it = self.o.interp
        v = it.deref(self.o.state, p)
        for n in path:
            v = it.proj(v, (".", n))
        return v

    def load(self, p):
        v = p
        while v.k == "ref":
            v = self.o.interp.deref(self.o.state, v)
        return v
