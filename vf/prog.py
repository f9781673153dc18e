"""Loads the extractor's output and merges the translation units into one program."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
SX = os.path.join(VERIF, "build", "sx")
ARGS = [
    "-std=c++20",
    "-I" + REPO + "/include",
    "-DTOML_HEADER_ONLY=0",
    "-DTOML_SHARED_LIB=1",
    "-include",
    os.path.join(VERIF, "sx", "shim.hpp"),
    "-resource-dir",
    "/usr/lib/llvm-18/lib/clang/18",
    "-w",
]


class AnalysisError(Exception):
    pass


class Ty:
    __slots__ = ("s", "c", "of", "n", "a", "bits", "signed", "const", "rec", "char", "lam", "enums", "vals")

    def __repr__(self):
        return self.s

    @property
    def isref(self):
        return self.c in ("ref", "rref")


class Fn:
    __slots__ = ("tu", "d", "m", "q", "id", "bodies")

    def __repr__(self):
        return f"<{self.q}>"

    @property
    def has_body(self):
        return "body" in self.d


class Rec:
    __slots__ = ("tu", "d", "n", "s")


class Prog:
    def __init__(self, tus):
        """tus: list of parsed json objects"""
        self.tus = tus
        self.types = {}  # canonical string -> Ty
        self.ty_ix = []
        self.fns = {}  # mangled -> Fn (preferred definition)
        self.fn_ix = []
        self.recs = {}
        self.globals = {}
        self.all_defs = {}  # mangled -> [(tu index, data)]
        for ti, tu in enumerate(tus):
            self.ty_ix.append([None] * len(tu["types"]))
            for i in range(len(tu["types"])):
                self._ty(ti, i)
            for r in tu["records"]:
                if r is None:
                    continue
                k = r["s"]
                if r.get("lambda"):
                    k = f"{ti}:{k}"
                old = self.recs.get(k)
                bad = any(isinstance(f.get("init"), dict) and f["init"].get("cls") == "uninstantiated-init" for f in r["fields"])
                if old is None or (getattr(old, "s", None) == "bad" and not bad):
                    o = Rec()
                    o.tu, o.d, o.n = ti, r, r["n"]
                    o.s = "bad" if bad else "ok"
                    self.recs[k] = o
            for q, g in tu["globals"].items():
                if g is None:
                    continue
                if q not in self.globals or ("init" in g and "init" not in self.globals[q][1]):
                    self.globals[q] = (ti, g)
        for ti, tu in enumerate(tus):
            ix = []
            for i, f in enumerate(tu["funcs"]):
                if f is None or f.get("dep"):
                    ix.append(None)
                    continue
                m = f["m"]
                fn = self.fns.get(m)
                if fn is None:
                    fn = Fn()
                    fn.tu, fn.d, fn.m, fn.q, fn.id, fn.bodies = ti, f, m, f["q"], i, []
                    self.fns[m] = fn
                if "body" in f:
                    fn.bodies.append((ti, f))
                    if "body" not in fn.d or (self._rank(f) < self._rank(fn.d)):
                        fn.tu, fn.d, fn.id = ti, f, i
                elif "body" not in fn.d and "file" in f and "file" not in fn.d:
                    fn.tu, fn.d, fn.id = ti, f, i
                ix.append(fn)
            self.fn_ix.append(ix)
        self.byq = {}
        for fn in self.fns.values():
            self.byq.setdefault(fn.q, []).append(fn)

    @staticmethod
    def _rank(f):
        return 0 if f.get("tsk", 0) in (0, 2) else 1

    def _ty(self, ti, i):
        t = self.ty_ix[ti][i]
        if t is not None:
            return t
        d = self.tus[ti]["types"][i]
        key = d["s"]
        if d.get("lambda") or "(lambda" in key or "(unnamed" in key:
            key = f"{ti}:{key}"
        t = self.types.get(key)
        if t is None:
            t = Ty()
            t.s = d["s"]
            t.c = d["c"]
            t.of = None
            t.n = d.get("n")
            t.a = []
            t.vals = []
            t.bits = d.get("bits")
            t.signed = d.get("signed")
            t.const = d.get("const", False)
            t.char = d.get("char", False)
            t.lam = d.get("lambda", False)
            t.enums = d.get("enums")
            t.rec = None
            self.types[key] = t
            self.ty_ix[ti][i] = t
            if "of" in d:
                t.of = self._ty(ti, d["of"])
            for x in d.get("a", []):
                if isinstance(x, int):
                    t.a.append(self._ty(ti, x))
                elif isinstance(x, dict):
                    t.vals.append(int(x["v"]))
        if t.c == "record" and "rec" in d and t.rec is None:
            r = self.tus[ti]["records"][d["rec"]]
            if r is not None:
                t.rec = (f"{ti}:" if r.get("lambda") else "") + r["s"]
        self.ty_ix[ti][i] = t
        return t

    def ty(self, ti, i):
        return self.ty_ix[ti][i]

    def fn(self, ti, i):
        return self.fn_ix[ti][i]

    def rec(self, ty):
        if ty.rec is None:
            return None
        return self.recs.get(ty.rec)

    def find(self, q, pred=None, body=True):
        """functions with qualified name q that have a definition"""
        return [f for f in self.byq.get(q, []) if (not body or f.has_body) and (pred is None or pred(f))]

    def loc(self, fn, line=None):
        f = fn.d.get("file") or ""
        return f"{f.replace(REPO + '/', '')}:{line if line else fn.d.get('line')}"


def repo_files():
    out = []
    for base in ("include", "src"):
        for dp, dn, fns in os.walk(os.path.join(REPO, base)):
            for f in sorted(fns):
                if f.endswith((".hpp", ".cpp", ".h", ".cc", ".cxx", ".hh", ".ipp", ".tpp", ".inl")):
                    out.append(os.path.join(dp, f))
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    for d in ("spec", "sx"):
        p = os.path.join(VERIF, d)
        for f in sorted(os.listdir(p)):
            if d == "spec" and f.endswith(".cpp"):
                continue
            with open(os.path.join(p, f), "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:24]


def units(spec=None):
    """the repository's units, the template instantiations, and the named harness files"""
    src = [f for f in repo_files() if f.endswith((".cpp", ".cc", ".cxx")) and not f.endswith("util/tomlplusplus.cpp")]
    d = os.path.join(VERIF, "spec")
    if spec is None:
        spec = [f for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    else:
        spec = ["inst.cpp"] + [f + ".cpp" for f in spec]
    return src + [os.path.join(d, f) for f in spec]


def extract(spec=None):
    """parse every unit (in parallel), with a cache keyed by the content of all sources"""
    if not os.path.exists(SX):
        subprocess.run([os.path.join(VERIF, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
    cache = os.path.join(VERIF, "build", "cache", source_hash())
    os.makedirs(cache, exist_ok=True)
    files = units(spec)

    def one(f):
        h = ""
        if f.startswith(VERIF):
            with open(f, "rb") as fh:
                h = hashlib.sha256(fh.read()).hexdigest()[:16]
        out = os.path.join(cache, f.strip("/").replace("/", "_") + h + ".json")
        if os.path.exists(out):
            return out
        if os.path.exists(out[:-5] + ".broken"):
            return out[:-5] + ".broken"
        fd, tmp = tempfile.mkstemp(dir=cache, suffix=".tmp")
        os.close(fd)
        os.unlink(tmp)
        roots = f"{REPO}/include:{REPO}/src:{VERIF}/spec"
        # a harness looks at members as they are
        extra = ["-fno-access-control"] if f.startswith(VERIF) else []
        p = subprocess.run([SX, tmp, roots, f, "--"] + ARGS + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 and f.startswith(VERIF):
            # it does not fit the code's interface any more: what can be parsed is kept, marked by its name
            out = out[:-5] + ".broken"
            p = subprocess.run([SX, tmp, roots, f, "--"] + ARGS + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SX_TOLERANT="1"))
            if not os.path.exists(tmp):
                with open(tmp, "w") as fh:
                    json.dump({"tu": f, "types": [], "funcs": [], "records": [], "globals": {}}, fh)
        elif p.returncode != 0 or not os.path.exists(tmp):
            raise AnalysisError(f"cannot parse {f}:\n" + p.stdout[-3000:])
        os.replace(tmp, out)
        return out

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, files))
    # keep the cache small
    root = os.path.join(VERIF, "build", "cache")
    dirs = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
    for d in dirs[:-6]:
        for f in os.listdir(d):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
        try:
            os.rmdir(d)
        except OSError:
            pass
    tus = []
    for o in outs:
        with open(o) as fh:
            tus.append(json.load(fh))
    P = Prog(tus)
    P.broken = {i for i, o in enumerate(outs) if o.endswith(".broken")}
    return P


if __name__ == "__main__":
    p = extract()
    print(len(p.tus), "units", len(p.fns), "functions", sum(1 for f in p.fns.values() if f.has_body), "bodies", len(p.recs), "records")
    if len(sys.argv) > 1:
        for q, fs in p.byq.items():
            if sys.argv[1] in q:
                for f in fs:
                    print(f.q, f.m, f.has_body, f.d.get("tsk"))
