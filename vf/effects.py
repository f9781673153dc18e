"""Whole-program effect and dependence analyses over the functions of the repository (no value tracking).

Dependence graph: nodes are local variables, fields (one node per class and field), function results and globals; edges
follow initialisations, assignments, arguments, returns, reference bindings and the conditions statements are controlled by.
It is flow-insensitive, so what it calls independent is independent on every path and schedule."""
import re

import prog
from driver import Item

ENGINES = re.compile(r"std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|random_device)\b")
ENTROPY = re.compile(
    r"^(std::random_device::.*|(std::)?(time|clock|rand|random|rand_r|drand48|erand48|lrand48|nrand48|mrand48|jrand48|getpid|getppid|gettid|getuid|pthread_self|gettimeofday|"
    r"clock_gettime|timespec_get|getrandom|getentropy|arc4random|arc4random_uniform|getenv|secure_getenv|gethostname|random_shuffle|tmpnam|tempnam|mkstemp|times|getrusage)|"
    r"std::this_thread::get_id|std::thread::hardware_concurrency|std::chrono::.*::now|std::filesystem::(last_write_time|temp_directory_path|space|directory_iterator::.*|recursive_directory_iterator::.*)|"
    r"__rdtsc|_rdtsc|__builtin_ia32_rdtsc|std::hash<.*\*>::operator\(\))$"
)
THREADS = re.compile(r"^std::(thread::thread|jthread::jthread|async|execution::.*)$|^(pthread_create|fork|vfork)$")
PRINTS = re.compile(r"^(fmt|std)::(v\d+::)?(print|println|vprint|format|format_to|format_to_n|formatted_size|make_format_args|streamed|join|to_string)$|^(std::)?(printf|puts|fputs|fprintf|putchar|fflush)$")
UNORDERED = re.compile(r"^(const )?(class |struct )?std::unordered_(multi)?(set|map)<|^(const )?std::(multi)?(set|map)<[^<>,]*\*")
STREAM = re.compile(r"std::basic_(o|)fstream<")
PURE_TIME = re.compile(r"std::chrono::")


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def holds_engine(ts):
    """a value of this type contains an engine (as opposed to referring to one)"""
    m = ENGINES.search(ts)
    if not m:
        return False
    rest = ts[m.end():]
    if rest.startswith("<"):
        d = 0
        for i, ch in enumerate(rest):
            d += (ch == "<") - (ch == ">")
            if d == 0:
                rest = rest[i + 1:]
                break
    rest = rest.replace(" const", "").lstrip()
    if rest.startswith(("&", "*")):
        return False
    if ts.rstrip().endswith(("&", "*")):
        return False
    # std::unique_ptr<E>, std::vector<E>, std::optional<E> hold one; a function type or a traits class names one
    if "(" in ts or re.search(r"_distribution<|__|_Dummy|allocator|function<|result_of|reference_wrapper|span<|default_delete", ts[: m.start()]):
        return False
    return True


class Effects:
    def __init__(s, P):
        s.P = P
        s.fns = [f for f in P.fns.values() if f.has_body and (f.d.get("file") or "").startswith(prog.REPO + "/")]
        s.byname = {f.m: f for f in s.fns}
        s.edges = {}  # node -> nodes it may flow into
        s.seeds = []  # (engine construction) records
        s.sinks = []  # (kind, deps, loc, text)
        s.sources = {}  # source -> (fn, line, text)
        s.calls = {}  # m -> {callee m}
        s.callers = {}  # callee m -> [(caller m, in loop)]
        s.impure_direct = set()
        s.ctrl_calls = []  # (caller fn, callee fn or None, ctrl deps, arg deps, loc, text)
        s.over = {}
        s.lamfn = {}
        for r in P.recs.values():
            for mm in r.d.get("methods", []):
                f = P.fn(r.tu, mm["f"])
                for o in mm.get("over", []):
                    g = P.fn(r.tu, o)
                    if f and g:
                        s.over.setdefault(g.m, set()).add(f.m)
        for r in P.recs.values():
            s.record(r)
        for f in s.fns:
            s.function(f)

    # ---- names
    def ty(s, fn, i):
        return s.P.ty(fn.tu, i)

    def loc(s, fn, l=None):
        return s.P.loc(fn, l)

    def flow(s, frm, to):
        for a in frm:
            s.edges.setdefault(a, set()).add(to)

    def F(s, fn, e):
        return ("F", re.sub(r"^const ", "", s.ty(fn, e["cls"]).s), e["n"])

    def isrepo_cls(s, fn, e):
        n = re.sub(r"^const ", "", s.ty(fn, e["cls"]).s)
        return n in s.P.recs

    def V(s, fn, e):
        if e.get("g"):
            return ("G", e["g"])
        return ("L", fn.tu, e["id"])

    # ---- what an expression depends on
    def deps(s, fn, e):
        if not isinstance(e, dict):
            out = set()
            for x in e or []:
                out |= s.deps(fn, x)
            return out
        k = e.get("k")
        if k == "var":
            return {s.V(fn, e)}
        if k == "mem":
            if s.isrepo_cls(fn, e):
                return {s.F(fn, e)} | {d for d in s.deps(fn, e["b"]) if d[0] in ("R", "S")}
            return s.deps(fn, e["b"])
        if k == "this":
            return {("T", fn.m)}
        if k == "lam":
            out = set()
            for c in e.get("caps", []):
                if c.get("init") and not c.get("ref"):
                    out |= s.deps(fn, c["init"])
            for x in e.get("fs", []):
                g = s.P.fn(fn.tu, x)
                if g:
                    out.add(("R", g.m))
            return out
        if k in ("call", "mcall", "ocall", "ctor", "new"):
            g = s.callee(fn, e)
            out = set()
            if g is not None and ENTROPY.match(s.strip(g.q)):
                out.add(s.source(fn, e, g.q))
            if k == "ctor" and "random_device" in s.ty(fn, e["t"]).s and not (g and (g.d.get("copy") or g.d.get("move"))):
                out.add(s.source(fn, e, "std::random_device"))
            if g is not None and s.targets(g):
                for t in s.targets(g):
                    out.add(("R", t.m))
                if k == "ctor":
                    # an object made of its arguments; its fields are nodes of their own
                    pass
                return out
            out |= s.deps(fn, e.get("a"))
            if e.get("b"):
                out |= s.deps(fn, e["b"])
            if e.get("fe"):
                out |= s.deps(fn, e["fe"])
            if e.get("e"):
                out |= s.deps(fn, e["e"])
            return out
        if k == "cast" and e.get("ck") == "PointerToIntegral":
            return {s.source(fn, e, "the address of an object")} | s.deps(fn, e["e"])
        if k == "asg":
            return s.deps(fn, e["a"]) | s.deps(fn, e["b"])
        out = set()
        for key, v in e.items():
            if isinstance(v, (dict, list)):
                out |= s.deps(fn, v)
        return out

    def strip(s, q):
        out, d = [], 0
        i = 0
        while i < len(q):
            if q.startswith("operator<", i) or q.startswith("operator>", i):
                out.append(q[i:])
                break
            ch = q[i]
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out.append(ch)
            i += 1
        return "".join(out)

    def source(s, fn, e, what):
        n = ("S", what, s.loc(fn, e.get("l")))
        s.sources[n] = (fn, e.get("l"), what)
        return n

    def callee(s, fn, e):
        if e.get("f") is None:
            return None
        return s.P.fn(fn.tu, e["f"])

    def targets(s, g):
        """repository functions a call of g may run"""
        out, todo, seen = [], [g.m], set()
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            if m in s.byname:
                out.append(s.byname[m])
            todo += s.over.get(m, ())
        return out

    def roots(s, fn, e):
        """nodes a write through this lvalue changes"""
        k = e.get("k") if isinstance(e, dict) else None
        if k == "var":
            return {s.V(fn, e)}
        if k == "mem":
            if s.isrepo_cls(fn, e):
                return {s.F(fn, e)}
            return s.roots(fn, e["b"])
        if k in ("sub", "asg", "bin"):
            return s.roots(fn, e["a"])
        if k in ("un", "cast"):
            return s.roots(fn, e["e"])
        if k == "cond":
            return s.roots(fn, e["a"]) | s.roots(fn, e["b"])
        if k == "this":
            return {("T", fn.m)}
        if k in ("call", "mcall", "ocall"):
            g = s.callee(fn, e)
            out = set()
            if g is not None and s.targets(g):
                out |= {("R", t.m) for t in s.targets(g)}
            if e.get("b"):
                out |= s.roots(fn, e["b"])
            for x in e.get("a", []) or []:
                if isinstance(x, dict):
                    out |= s.roots(fn, x)
            return out
        return set()

    # ---- collecting
    def record(s, r):
        class One:
            pass

        f = One()
        f.tu, f.m, f.q, f.d = r.tu, "init:" + r.d["s"], r.d["s"], {"file": r.d.get("file"), "line": r.d.get("line")}
        for x in r.d.get("fields", []):
            if isinstance(x.get("init"), dict):
                s.flow(s.deps(f, x["init"]), ("F", r.d["s"], x["n"]))

    def function(s, fn):
        s.calls.setdefault(fn.m, set())
        s.breaks = []
        extra = set()
        # a branch on an entropy value that leaves the function or the loop controls everything else in it
        for rnd in range(2):
            s.fnctrl = extra
            extra2 = set()
            s.leave = extra2
            if rnd == 0:
                keep = (dict(s.sources),)
                saved = (s.edges, s.sinks, s.ctrl_calls, s.seeds, s.calls, s.callers)
                s.edges, s.sinks, s.ctrl_calls, s.seeds, s.calls, s.callers = {}, [], [], [], {}, {}
                s.body(fn)
                s.edges, s.sinks, s.ctrl_calls, s.seeds, s.calls, s.callers = saved
                extra = extra2
            else:
                s.calls.setdefault(fn.m, set())
                s.body(fn)

    def body(s, fn):
        for it in fn.d.get("inits") or []:
            if it.get("e") is None:
                continue
            d = s.deps(fn, it["e"])
            if it.get("field"):
                cls = re.sub(r"^const ", "", s.ty(fn, fn.d["cls"]).s) if fn.d.get("cls") is not None else "?"
                s.flow(d, ("F", cls, it["field"]))
                if s.isref_field(cls, it["field"]):
                    for r in s.roots(fn, it["e"]):
                        s.flow({("F", cls, it["field"])}, r)
            s.exprs(fn, it["e"], set(), False)
        s.stmt(fn, fn.d["body"], set(s.fnctrl), False)

    def isref_field(s, cls, n):
        r = s.P.recs.get(cls)
        if r is None:
            return False
        for f in r.d["fields"]:
            if f["n"] == n:
                return s.P.ty(r.tu, f["t"]).isref
        return False

    def stmt(s, fn, n, ctrl, loop):
        if not isinstance(n, dict):
            for x in n or []:
                s.stmt(fn, x, ctrl, loop)
            return
        k = n.get("k")
        if k in ("if", "while", "do", "for", "switch", "rfor", "cond"):
            c = set(ctrl)
            if n.get("init") and k != "rfor":
                s.stmt(fn, n["init"], ctrl, loop)
            if n.get("cv"):
                s.decl(fn, n["cv"], ctrl, loop)
                c |= {("L", fn.tu, n["cv"]["id"])}
            inner = loop or k in ("while", "do", "for", "rfor")
            if n.get("c") is not None:
                s.exprs(fn, n["c"], ctrl, inner)
                c |= s.deps(fn, n["c"])
            if k == "rfor":
                d = s.deps(fn, n["r"])
                s.exprs(fn, n["r"], ctrl, loop)
                if n.get("v"):
                    s.flow(d | c, ("L", fn.tu, n["v"]["id"]))
                    for b in n["v"].get("bind", []):
                        s.flow(d | c, ("L", fn.tu, b["id"]))
                        if s.ty(fn, n["v"]["t"]).isref:
                            for r in s.roots(fn, n["r"]):
                                s.flow({("L", fn.tu, b["id"])}, r)
                    if s.ty(fn, n["v"]["t"]).isref:
                        for r in s.roots(fn, n["r"]):
                            s.flow({("L", fn.tu, n["v"]["id"])}, r)
            if n.get("inc") is not None:
                s.exprs(fn, n["inc"], c, True)
            for key in ("a", "b", "body", "s"):
                if n.get(key) is not None:
                    s.stmt(fn, n[key], c, inner)
            return
        if k in ("break", "continue"):
            s.leave |= ctrl
            return
        if k == "ret":
            s.leave |= ctrl
            if n.get("e") is not None:
                s.exprs(fn, n["e"], ctrl, loop)
                s.flow(s.deps(fn, n["e"]) | ctrl, ("R", fn.m))
            return
        if k == "decl":
            for v in n["d"]:
                s.decl(fn, v, ctrl, loop)
            return
        if k == "expr":
            s.exprs(fn, n["e"], ctrl, loop)
            return
        for key, v in n.items():
            if key in ("l", "k"):
                continue
            if isinstance(v, (dict, list)):
                s.stmt(fn, v, ctrl, loop)

    def decl(s, fn, v, ctrl, loop):
        node = ("L", fn.tu, v["id"])
        if v.get("init") is not None:
            d = s.deps(fn, v["init"])
            s.exprs(fn, v["init"], ctrl, loop)
            s.flow(d | ctrl, node)
            t = s.ty(fn, v["t"])
            if t.isref or t.c == "ptr":
                for r in s.roots(fn, v["init"]):
                    s.flow({node}, r)
            for b in v.get("bind", []):
                s.flow(d | ctrl, ("L", fn.tu, b["id"]))
        for b in v.get("bind", []):
            s.flow({node}, ("L", fn.tu, b["id"]))
            if s.ty(fn, v["t"]).isref and v.get("init") is not None:
                for r in s.roots(fn, v["init"]):
                    s.flow({("L", fn.tu, b["id"])}, r)

    def exprs(s, fn, e, ctrl, loop):
        """side effects and calls of an expression"""
        if isinstance(e, list):
            for x in e:
                s.exprs(fn, x, ctrl, loop)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "lam":
            for c in e.get("caps", []):
                s.exprs(fn, c.get("init"), ctrl, loop)
            for x in e.get("fs", []):
                g = s.P.fn(fn.tu, x)
                if g is not None:
                    s.call_edge(fn, g, loop)
                    s.lamfn.setdefault(g.m, fn)
            return
        if k == "cond":
            s.exprs(fn, e["c"], ctrl, loop)
            c = ctrl | s.deps(fn, e["c"])
            s.exprs(fn, e["a"], c, loop)
            s.exprs(fn, e["b"], c, loop)
            return
        if k == "bin" and e.get("op") in ("&&", "||"):
            s.exprs(fn, e["a"], ctrl, loop)
            s.exprs(fn, e["b"], ctrl | s.deps(fn, e["a"]), loop)
            return
        if k == "asg":
            d = s.deps(fn, e["b"]) | ctrl
            for r in s.roots(fn, e["a"]):
                s.flow(d, r)
                s.mutates(fn, r)
        if k == "un" and e.get("op") in ("++", "--"):
            for r in s.roots(fn, e["e"]):
                s.flow(ctrl, r)
                s.mutates(fn, r)
        if k == "throw":
            s.leave |= ctrl
        if k in ("call", "mcall", "ocall", "ctor", "new"):
            s.call(fn, e, ctrl, loop)
        for key, v in e.items():
            if key not in ("l", "t", "k", "f", "lv") and isinstance(v, (dict, list)):
                s.exprs(fn, v, ctrl, loop)

    def mutates(s, fn, r):
        if r[0] in ("F", "G", "T", "R") or (r[0] == "L" and s.outer(fn, r)):
            s.impure_direct.add(fn.m)

    def outer(s, fn, r):
        """a reference parameter, a reference or a captured variable"""
        if not hasattr(fn, "_x"):
            pass
        loc = s._locals(fn)
        return r[2] not in loc

    def _locals(s, fn):
        c = s.__dict__.setdefault("_lc", {})
        if fn.m not in c:
            ok = set()
            for p in fn.d.get("params") or []:
                if not s.ty(fn, p["t"]).isref and s.ty(fn, p["t"]).c != "ptr":
                    ok.add(p["id"])
            for n in walk(fn.d["body"]):
                if "id" in n and "t" in n and "n" in n and n.get("k") is None and not n.get("static"):
                    if not s.ty(fn, n["t"]).isref:
                        ok.add(n["id"])
            c[fn.m] = ok
        return c[fn.m]

    def call_edge(s, fn, g, loop):
        for t in s.targets(g) or ([g] if g.m in s.byname else []):
            s.calls.setdefault(fn.m, set()).add(t.m)
            s.callers.setdefault(t.m, []).append((fn.m, loop))

    def call(s, fn, e, ctrl, loop):
        k = e["k"]
        g = s.callee(fn, e)
        args = list(e.get("a") or [])
        obj = e.get("b")
        if g is None:
            return
        name = s.strip(g.q)
        loc = s.loc(fn, e.get("l"))
        if k == "ocall" and g.d.get("cls") is not None and not g.d.get("static") and len(args) == len(g.d.get("ps", [])) + 1:
            obj, args = args[0], args[1:]
        tg = s.targets(g)
        # engines: construction, seeding, assignment
        if k == "ctor" and ENGINES.match(s.ty(fn, e["t"]).s) and "random_device" not in s.ty(fn, e["t"]).s:
            kind = "copy" if (g.d.get("copy") or g.d.get("move")) and args and args[0].get("lv") else "default" if not args else "move" if g.d.get("move") else "seed"
            s.seeds.append((kind, fn, loc, s.deps(fn, args), ctrl, loop))
        if ENGINES.match(name):
            base = name.split("::")[-1]
            if base == "seed":
                s.seeds.append(("seed" if args else "default seed", fn, loc, s.deps(fn, args), ctrl, loop))
            if base == "operator=" and args and args[0].get("lv"):
                s.seeds.append(("copy", fn, loc, s.deps(fn, args), ctrl, loop))
            if base in ("discard",):
                s.sinks.append(("data", s.deps(fn, args) | ctrl, loc, "the number of discarded draws"))
        uses_engine = any(ENGINES.search(s.ty(fn, a["t"]).s) and "t" in a for a in args + ([obj] if obj else []) if isinstance(a, dict) and "t" in a)
        if uses_engine:
            s.impure_direct.add(fn.m)
        if tg:
            s.call_edge(fn, g, loop)
            for t in tg:
                ps = t.d.get("params") or []
                for p, a in zip(ps, args):
                    d = s.deps(fn, a) | ctrl
                    s.flow(d, ("L", t.tu, p["id"]))
                    pt = s.ty(t, p["t"])
                    if (pt.isref or pt.c == "ptr") and isinstance(a, dict):
                        for r in s.roots(fn, a):
                            s.flow({("L", t.tu, p["id"])}, r)
                if obj is not None:
                    s.flow({("T", t.m)}, ("T", t.m))
            d = set()
            for a in args:
                d |= s.deps(fn, a)
            s.ctrl_calls.append((fn, tg, set(ctrl), d, loc, name))
            return
        if THREADS.match(name):
            s.sinks.append(("thread", set(), loc, name))
        if PRINTS.match(name) or PRINTS.match(name.replace("::v9", "").replace("::v8", "")):
            return
        # library call: what goes in may come out through anything that can be written
        d = set(ctrl)
        for a in args:
            d |= s.deps(fn, a)
        lams = [x for a in args for x in walk(a) if x.get("k") == "lam"]
        for x in lams:
            for i in x.get("fs", []):
                h = s.P.fn(fn.tu, i)
                if h is not None and h.has_body:
                    for p in h.d.get("params") or []:
                        s.flow(d | (s.deps(fn, obj) if obj else set()), ("L", h.tu, p["id"]))
        if STREAM.search(s.ty(fn, e["t"]).s) and k == "ctor":
            s.impure_direct.add(fn.m)
            s.sinks.append(("data", d, loc, "a file that is written"))
        if name.startswith("std::filesystem::") and name.split("::")[-1] in ("create_directories", "create_directory", "remove", "remove_all", "rename", "copy", "resize_file"):
            s.impure_direct.add(fn.m)
            s.sinks.append(("data", d, loc, name))
        outs = []
        if obj is not None and k in ("mcall", "ocall") and not g.d.get("const") and isinstance(obj, dict):
            outs.append(obj)
        for i, a in enumerate(args):
            if not isinstance(a, dict) or "t" not in a:
                continue
            ps = g.d.get("ps", [])
            pt = s.P.ty(g.tu, ps[i]) if i < len(ps) else None
            if pt is not None and pt.c in ("ref", "rref", "ptr") and not s.constref(pt):
                outs.append(a)
            elif "iterator" in s.ty(fn, a["t"]).s:
                outs.append(a)
        for o in outs:
            for r in s.roots(fn, o):
                s.flow(d, r)
                s.mutates(fn, r)
        base = name.split("::")[-1]
        if base == "operator<<" and args and isinstance(args[0], dict) and STREAM.search(s.ty(fn, args[0].get("t", e["t"])).s):
            s.impure_direct.add(fn.m)

    def constref(s, t):
        return bool(re.match(r"const\b", t.s)) or " const &" in t.s or " const *" in t.s

    # ---- closures
    def reach(s, start):
        """nodes something may flow into, with one step back each"""
        back, todo = {x: None for x in start}, list(start)
        while todo:
            x = todo.pop()
            for y in s.edges.get(x, ()):
                if y not in back and not s.declassified(y):
                    back[y] = x
                    todo.append(y)
        return back

    def declassified(s, n):
        return n[0] == "F" and n[2] == "rng_seed"

    def impure(s):
        imp = set(s.impure_direct)
        again = True
        while again:
            again = False
            for m, cs in s.calls.items():
                if m not in imp and cs & imp:
                    imp.add(m)
                    again = True
        return imp

    def name(s, n):
        if n[0] == "F":
            return f"{n[1].replace('Seldon::', '')}::{n[2]}"
        if n[0] == "S":
            return f"{n[1]} at {n[2]}"
        if n[0] == "R":
            f = s.P.fns.get(n[1])
            return "the result of " + (f.q.replace("Seldon::", "") if f else "a function")
        if n[0] == "G":
            return n[1]
        if n[0] == "L":
            return "a local value"
        return str(n[0])

    def path(s, back, n):
        out = []
        while n is not None and len(out) < 12:
            out.append(s.name(n))
            n = back.get(n)
        return " <- ".join(x for i, x in enumerate(out) if i == 0 or x != out[i - 1])


def once_per_simulation(E, fn):
    """only construction of a simulation runs this function, and not in a loop: '' or why not"""
    seen, todo = set(), [fn.m]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        f = E.P.fns[m]
        if f.d.get("kind") == "ctor" and "Simulation" in E.strip(f.q).split("::")[-2]:
            continue
        cs = E.callers.get(m, [])
        if m in E.lamfn:
            cs = cs + [(E.lamfn[m].m, False)]
        if not cs:
            if f.q == "main":
                continue
            return f"{f.q.replace('Seldon::', '')} is not part of constructing a simulation"
        for c, loop in cs:
            if loop:
                return f"{f.q.replace('Seldon::', '')} runs in a loop"
            todo.append(c)
    return ""


def determinism(r):
    """C20: every influence on a simulation's result is the configuration or the one generator"""
    E = Effects(r.P)
    for f in E.fns:
        r.functions[f.q] = r.P.loc(f)
    back = E.reach(list(E.sources))
    imp = E.impure()
    items = r.items

    def bad(label, loc, why, rule):
        items.append(Item(label, loc, "violated", rule, {"why": why}))

    def good(label, loc, rule):
        items.append(Item(label, loc, "discharged", rule))

    R1 = "entropy reaches only the default seed and progress output (dependence graph)"
    hits = {}
    for n in back:
        if n[0] == "F":
            r0 = E.P.recs.get(n[1])
            ft = ""
            if r0 is not None:
                for f in r0.d["fields"]:
                    if f["n"] == n[2]:
                        ft = E.P.ty(r0.tu, f["t"]).s
            if PURE_TIME.search(ft) or (r0 is not None and r0.d.get("lambda")):
                continue
            hits[("field", n[1], n[2])] = (f"{n[1].replace('Seldon::', '')}::{n[2]}", E.path(back, n), n)
        elif n[0] == "G" and not n[1].startswith("std::"):
            hits[n] = (n[1], E.path(back, n), n)
    for kind, deps, loc, text in E.sinks:
        if kind == "thread":
            items.append(Item("no result depends on the order of threads", loc, "undecided", "threads are outside this analysis", {"why": text}))
            continue
        for d in deps:
            if d in back:
                hits[("sink", loc)] = (text, E.path(back, d), d)
    for fn, tg, ctrl, args, loc, name in E.ctrl_calls:
        if not any(t.m in imp for t in tg):
            continue
        for d in ctrl:
            if d in back:
                hits[("ctrl", loc)] = (f"whether {name.replace('Seldon::', '')} is called", E.path(back, d), d)
        for d in args:
            if d in back:
                hits[("arg", loc)] = (f"an argument of {name.replace('Seldon::', '')}", E.path(back, d), d)
    where = {}
    for k, (text, path, n) in hits.items():
        m = n
        while m is not None and m[0] != "S":
            m = back.get(m)
        where.setdefault(m, []).append((k, text, path))
    for src in sorted(E.sources, key=str):
        label = f"{src[1]} does not influence a result"
        if src in where:
            k, text, path = sorted(where[src], key=str)[0]
            bad(label, src[2], f"it may decide {text}: {path}", R1)
        else:
            good(label, src[2], R1)

    R2 = "an engine is constructed from the configured seed once per simulation and never copied (who-may-construct)"
    seeds = E.reach([("F", r0.d["s"], "rng_seed") for r0 in E.P.recs.values() if any(f["n"] == "rng_seed" for f in r0.d["fields"])])
    for kind, fn, loc, deps, ctrl, loop in E.seeds:
        label = f"engine in {fn.q.replace('Seldon::', '')}"
        if kind == "copy":
            bad(label, loc, "a copy repeats the draws of the original", R2)
            continue
        why = once_per_simulation(E, fn)
        if loop:
            why = "an engine is set up in a loop"
        if why:
            bad(label, loc, why, R2)
        elif kind in ("seed", "move"):
            if any(d in back for d in deps | ctrl):
                d = next(d for d in deps | ctrl if d in back)
                bad(label, loc, "the seed depends on " + E.path(back, d), R2)
            elif kind == "seed" and not any(d in seeds for d in deps):
                bad(label, loc, "the seed is not the configured one", R2)
            else:
                good(label, loc, R2)
        elif kind == "default seed":
            bad(label, loc, "the generator is reset to the default seed", R2)
        else:
            good(label, loc, R2)
    R3 = "no engine by value outside the simulation (types of fields, variables and parameters)"
    owners = 0
    for c, r0 in E.P.recs.items():
        if not (r0.d.get("file") or "").startswith(prog.REPO + "/") or r0.d.get("lambda"):
            continue
        for f in r0.d["fields"]:
            if holds_engine(E.P.ty(r0.tu, f["t"]).s):
                owners += 1
    for fn in E.fns:
        for p in fn.d.get("params") or []:
            if holds_engine(E.ty(fn, p["t"]).s):
                bad(f"engine passed by value to {fn.q.replace('Seldon::', '')}", r.P.loc(fn), "the caller's generator does not advance", R3)
    r.notes.append(f"{owners} engine fields, {len(E.seeds)} engine constructions, {len(E.sources)} entropy sources, {len(back)} dependent nodes, {len(imp)} functions with effects")

    R4 = "no state that outlives a simulation, no address or hash order, no value before it is written (per function)"
    for q, (tu, g) in sorted(E.P.globals.items()):
        if not (g.get("file") or "").startswith(prog.REPO + "/"):
            continue
        if not g.get("const"):
            users = [f for f in E.fns if any(n.get("g") == q for n in walk(f.d["body"]))]
            label = f"global {q}"
            (bad(label, r.P.loc(users[0]), f"mutable global state, used by {users[0].q}", R4) if users else good(label, "", R4))
    for fn in E.fns:
        why = state_of(E, fn) or unordered(E, fn) or uninitialised(E, fn)
        label = f"{fn.q.replace('Seldon::', '')}"
        if why:
            bad(label, r.P.loc(fn, why[0]), why[1], R4)
        else:
            good(label, r.P.loc(fn), R4)
    members_of(r, E)


def members_of(r, E):
    R5 = "every scalar member is initialised by every constructor (definite initialisation)"
    for c, r0 in sorted(E.P.recs.items()):
        if not (r0.d.get("file") or "").startswith(prog.REPO + "/") or r0.d.get("lambda") or r0.d.get("union"):
            continue
        why = members(E, c, r0)
        at = (r0.d.get("file") or "").replace(prog.REPO + "/", "") + ":" + str(r0.d.get("line"))
        r.items.append(Item(f"members of {c.replace('Seldon::', '')}", at, "violated" if why else "discharged", R5, *([{"why": why}] if why else [])))


def definite(r):
    """C38: no local and no member is read before it is written"""
    E = Effects(r.P)
    for fn in E.fns:
        why = uninitialised(E, fn)
        r.items.append(Item(f"locals of {fn.q.replace('Seldon::', '')}", r.P.loc(fn, why[0] if why else None), "violated" if why else "discharged", "a write reaches every read of a local (definite initialisation)", *([{"why": why[1]}] if why else [])))
    members_of(r, E)



def state_of(E, fn):
    for n in walk(fn.d["body"]):
        if (n.get("static") or n.get("tls")) and n.get("k") is None and "id" in n and "t" in n:
            t = E.ty(fn, n["t"]).s
            if not re.match(r"const\b", t):
                # written after its initialisation, or with a state of its own
                return (n.get("l"), f"static variable {n['n']} keeps its value between simulations")
    return None


def unordered(E, fn):
    for n in walk(fn.d["body"]):
        k = n.get("k")
        if k == "rfor" and isinstance(n.get("r"), dict) and UNORDERED.match(E.ty(fn, n["r"]["t"]).s):
            return (n.get("l"), "visits a container in the order of hashes or addresses")
        if k == "mcall" and isinstance(n.get("b"), dict) and "t" in n["b"]:
            t = re.sub(r"[ &*]+$", "", E.ty(fn, n["b"]["t"]).s)
            g = E.callee(fn, n)
            if g is not None and UNORDERED.match(t) and E.strip(g.q).split("::")[-1] in ("begin", "cbegin", "bucket"):
                return (n.get("l"), "visits a container in the order of hashes or addresses")
        if k == "bin" and n.get("op") in ("<", ">", "<=", ">=", "<=>") and all(E.ty(fn, n[x]["t"]).c == "ptr" for x in ("a", "b") if "t" in n[x]) and "t" in n["a"]:
            if not any(re.search(r"char", E.ty(fn, n[x]["t"]).s) for x in ("a", "b")):
                return (n.get("l"), "compares addresses")
    return None


SCALAR = ("int", "float", "bool", "enum", "ptr")


def uninitialised(E, fn):
    """a local scalar no write can have reached before it is read"""
    order = []

    def visit(n, lhs=False):
        if isinstance(n, list):
            for x in n:
                visit(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "decl":
            for v in n["d"]:
                if v.get("init") is not None:
                    visit(v["init"])
                    order.append(("w", v["id"], v))
                elif E.ty(fn, v["t"]).c in SCALAR and not v.get("static"):
                    order.append(("d", v["id"], v))
                else:
                    order.append(("w", v["id"], v))
            return
        if k == "asg":
            if n["a"].get("k") == "var" and n.get("op") == "=":
                visit(n["b"])
                order.append(("w", n["a"].get("id"), n))
                return
            visit(n["b"])
            visit(n["a"])
            return
        if k == "var":
            order.append(("r", n["id"], n))
            return
        if k in ("call", "mcall", "ocall", "ctor", "lam"):
            # anything may be written through a reference, or later by a lambda
            for x in n.get("caps", []):
                if x.get("id") is not None:
                    order.append(("w", x["id"], n))
            for a in list(n.get("a") or []) + ([n["b"]] if isinstance(n.get("b"), dict) else []):
                if isinstance(a, dict) and a.get("k") == "var" and a.get("lv"):
                    order.append(("w", a["id"], n))
                else:
                    visit(a)
            return
        if k == "un" and n.get("op") == "&":
            if n["e"].get("k") == "var":
                order.append(("w", n["e"]["id"], n))
                return
        if k in ("while", "do", "for", "rfor"):
            # an earlier round may have written it
            for x in walk(n):
                if x.get("k") == "asg" and x["a"].get("k") == "var":
                    order.append(("w", x["a"]["id"], x))
        for key in ("init", "cv", "r", "c", "a", "b", "e", "body", "inc", "s", "h", "fe", "d"):
            if isinstance(n.get(key), (dict, list)):
                visit(n[key])

    visit(fn.d["body"])
    open_, out = {}, None
    for op, i, n in order:
        if op == "d":
            open_[i] = n
        elif op == "w":
            open_.pop(i, None)
        elif i in open_:
            return (n.get("l"), f"{open_[i]['n']} is read before it is written")
    return None


def elsewhere(E, g, n, c, name):
    """may n write the member name of a class c without constructors?"""
    k = n.get("k")
    if k == "asg":
        return n["a"].get("k") == "mem" and n["a"]["n"] == name
    if k in ("call", "mcall", "ocall", "ctor"):
        return any(isinstance(a, dict) and a.get("k") == "mem" and a["n"] == name and a.get("lv") for a in n.get("a") or [])
    return k == "init" and bool(n.get("a")) and "t" in n and re.sub(r"^const ", "", E.ty(g, n["t"]).s) == c


def members(E, c, r0):
    need = [f for f in r0.d["fields"] if E.P.ty(r0.tu, f["t"]).c in SCALAR and f.get("init") is None]
    if not need:
        return None
    ctors = [f for f in E.fns if f.d.get("kind") == "ctor" and f.d.get("cls") is not None and re.sub(r"^const ", "", E.ty(f, f.d["cls"]).s) == c and not f.d.get("copy") and not f.d.get("move") and not f.d.get("defaulted")]
    written = {}

    def writes(fn, seen):
        if fn.m in seen:
            return set()
        seen.add(fn.m)
        if fn.m in written:
            return written[fn.m]
        out = {it["field"] for it in fn.d.get("inits") or [] if it.get("field") and it.get("e") is not None and it["e"].get("k") != "unk"}
        for it in fn.d.get("inits") or []:
            if it.get("deleg") or (it.get("e") or {}).get("k") == "ctor" and it.get("deleg") is not None:
                g = E.callee(fn, it["e"])
                if g is not None:
                    for t in E.targets(g):
                        out |= writes(t, seen)
        for n in walk(fn.d["body"]):
            if n.get("k") == "asg" and n["a"].get("k") == "mem":
                out.add(n["a"]["n"])
            if n.get("k") in ("call", "mcall", "ocall"):
                g = E.callee(fn, n)
                if g is not None:
                    for t in E.targets(g):
                        out |= writes(t, seen)
        return out

    for f in need:
        if ctors:
            for k in ctors:
                if f["n"] not in writes(k, set()):
                    return f"{f['n']} is left uninitialised by the constructor at line {k.d.get('line')}"
        else:
            if not any(elsewhere(E, g, n, c, f["n"]) for g in E.fns for n in walk([g.d.get("inits"), g.d["body"]])):
                return f"{f['n']} is never written"
    return None
