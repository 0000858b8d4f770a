"""Builds the resolved-program facts of /repo's current tree.

1. lays out the compilable part of /repo (same exclusions as /opt/vp/subset.py; that script is
   not reused because it writes to /opt/vp) in <work>/layout;
2. builds the rustc driver in /verif/driver;
3. runs `cargo +nightly check --lib` on the layout with the driver as workspace wrapper;
4. returns the parsed facts.

Everything is keyed by a hash of (sources, driver, this file) so that a second check in the same
sandbox reuses the facts, and a changed source always gives a new run.
"""
import fcntl
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIRFACTS_REPO", "/repo")
WORK = os.environ.get("MIRFACTS_WORK", os.path.join(VERIF, ".work"))

# Modules that do not compile against the vendored sqlparser, or need those that do not.
EXCLUDE = [
    "src/sql/execution/expression_parser.rs",
    "src/sql/planner/plan_builder.rs",
    "src/sql/planner/query_planner.rs",
    "src/sql/execution/execution_engine.rs",
    "src/common/db_instance.rs",
    "src/server/server_impl.rs",
    "src/server/connection.rs",
    "src/client",
    "src/cli.rs",
    "src/main.rs",
]
MODS = {
    "src/lib.rs": ["cli", "client"],
    "src/common/mod.rs": ["db_instance"],
    "src/server/mod.rs": ["server_impl", "connection"],
    "src/sql/execution/mod.rs": ["expression_parser", "execution_engine"],
    "src/sql/planner/mod.rs": ["plan_builder", "query_planner"],
}


class FactsError(Exception):
    pass


def source_files():
    out = ["Cargo.toml", "Cargo.lock"]
    if os.path.exists(f"{REPO}/build.rs"):
        out.append("build.rs")
    for d, dirs, files in os.walk(f"{REPO}/src"):
        for f in files:
            rel = os.path.relpath(f"{d}/{f}", REPO)
            if any(rel == e or rel.startswith(e + "/") for e in EXCLUDE):
                continue
            out.append(rel)
    return sorted(out)


def text_of(rel):
    with open(f"{REPO}/{rel}", "rb") as f:
        data = f.read()
    if rel in MODS:
        t = data.decode("utf-8")
        for m in MODS[rel]:
            t = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", t)
        data = t.encode("utf-8")
    return data


def env(extra=None):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin",
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
    )
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd, extra=None):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    tgt = f"{WORK}/driver-target"
    rc, out = run(["cargo", "build", "--release", "--offline", "--target-dir", tgt], f"{VERIF}/driver")
    if rc != 0:
        raise FactsError("driver build failed:\n" + out[-4000:])
    return f"{tgt}/release/mirfacts"


def sysroot():
    rc, out = run(["rustc", "--print", "sysroot"], "/")
    return out.strip().splitlines()[-1]


def compute_key(files):
    h = hashlib.sha256()
    for rel in files:
        h.update(rel.encode() + b"\0" + text_of(rel) + b"\0")
    for f in ("driver/src/main.rs", "driver/Cargo.toml", "sa/facts.py"):
        with open(f"{VERIF}/{f}", "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def generate(dest):
    """facts file path for the current tree"""
    drv = build_driver()
    files = source_files()
    layout = f"{WORK}/layout"
    want = set(files)
    if os.path.isdir(layout):
        for d, dirs, fs in os.walk(layout, topdown=False):
            for f in fs:
                if os.path.relpath(f"{d}/{f}", layout) not in want:
                    os.remove(f"{d}/{f}")
    for rel in files:
        dst = f"{layout}/{rel}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        data = text_of(rel)
        if rel == "Cargo.toml":
            # only the library is analysed; bins/benches/tests are not laid out
            t = data.decode()
            t = re.sub(r"(?ms)^\[\[(bin|bench|test|example)\]\]\n.*?(?=^\[|\Z)", "", t)
            if "[workspace]" not in t:
                t += "\n[workspace]\n"
            data = t.encode()
        old = None
        if os.path.exists(dst):
            with open(dst, "rb") as f:
                old = f.read()
        if old != data:
            with open(dst, "wb") as f:
                f.write(data)
    tgt = f"{WORK}/check-target"
    # cargo's freshness cache would skip the wrapper: remove the crate's own fingerprints
    fp = f"{tgt}/debug/.fingerprint"
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("ferrite-"):
                shutil.rmtree(f"{fp}/{n}")
    tmp = dest + ".tmp"
    if os.path.exists(tmp):
        os.remove(tmp)
    rc, out = run(
        ["cargo", "check", "--lib", "--offline", "--locked", "--target-dir", tgt],
        layout,
        {
            "RUSTC_WORKSPACE_WRAPPER": drv,
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "MIRFACTS_CRATE": "ferrite",
            "MIRFACTS_OUT": tmp,
        },
    )
    if rc != 0 or not os.path.exists(tmp):
        raise FactsError("analysis build of /repo failed:\n" + out[-6000:])
    with open(tmp, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200))
        if b'"rec":"end"' not in f.read():
            raise FactsError("incomplete facts")
    os.replace(tmp, dest)
    return dest


def load():
    os.makedirs(WORK, exist_ok=True)
    with open(f"{WORK}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = source_files()
        key = compute_key(files)
        path = f"{WORK}/facts-{key}.pkl"
        if os.path.exists(path):
            os.utime(path)
            with open(path, "rb") as f:
                return pickle.load(f)
        raw = generate(f"{WORK}/facts-{key}.jsonl")
        recs = {"adt": {}, "impl": [], "trait": {}, "fn": {}, "end": None, "key": key, "files": files}
        with open(raw) as f:
            for line in f:
                r = json.loads(line)
                k = r.pop("rec")
                if k == "adt":
                    recs["adt"][r["p"]] = r
                elif k == "impl":
                    recs["impl"].append(r)
                elif k == "trait":
                    recs["trait"][r["p"]] = r
                elif k == "fn":
                    recs["fn"][r["u"]] = r
                elif k == "end":
                    recs["end"] = r
        os.remove(raw)
        # keep at most 3 generations
        old = sorted((x for x in os.listdir(WORK) if x.startswith("facts-") and x.endswith(".pkl")),
                     key=lambda x: os.path.getmtime(f"{WORK}/{x}"))
        for x in old[:-2]:
            os.remove(f"{WORK}/{x}")
        with open(path + ".tmp", "wb") as f:
            pickle.dump(recs, f, protocol=5)
        os.replace(path + ".tmp", path)
        return recs


if __name__ == "__main__":
    r = load()
    print("bodies", len(r["fn"]), "adts", len(r["adt"]), "impls", len(r["impl"]))
