"""C28: the type in which edges are counted, and which integer operations the harnesses of C28 reach."""
import prog
from driver import Item
from effects import walk

RULE_WIDTH = "every integer from which the number of edges is computed (backward slice over initialisations, assignments, reductions and returns) has at least 64 bits"
RULE_REACH = "the operation is analysed with arbitrary operands by one of the harnesses of this property"


def mine(fn):
    return (fn.d.get("file") or "").startswith(prog.REPO + "/")


def is_lambda(fn):
    return bool(fn.d.get("lambda"))


class Slice:
    """what the value an expression yields is computed from"""

    def __init__(s, P):
        s.P = P
        s.bad = []
        s.seen = set()
        s.parts = 0

    def narrow(s, tu, t):
        t = s.P.ty(tu, t)
        while t.c in ("ref", "rref"):
            t = t.of
        return t if t.c == "int" and t.bits and t.bits < 64 and not t.s.endswith("bool") else None

    def body(s, tu, node):
        """a body and those of the lambdas in it"""
        for n in walk(node):
            yield tu, n
            if n.get("k") == "lam":
                for f in n["fs"]:
                    d = s.P.tus[tu]["funcs"][f]
                    if d and d.get("body"):
                        yield from s.body(tu, d["body"])

    def function(s, fn):
        if fn.m in s.seen or not fn.has_body:
            return
        s.seen.add(fn.m)
        if (t := s.narrow(fn.tu, fn.d["rt"])) is not None:
            s.bad.append((s.P.loc(fn), f"{fn.q} returns it as {t.s}"))
        for n in walk(fn.d["body"]):
            if n.get("k") == "ret" and n.get("e") is not None:
                s.value(fn, fn.tu, n["e"])

    def check(s, fn, tu, e, what):
        s.parts += 1
        if (t := s.narrow(tu, e["t"])) is not None:
            s.bad.append((s.P.loc(fn, e.get("l")), f"{what} of type {t.s}"))

    def value(s, fn, tu, e):
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k in ("int", "bool", "char", "float", "null", "enumc"):
            return
        if k == "cast":
            return s.value(fn, tu, e["e"])
        if k in ("init", "ctor"):
            for x in e.get("a") or []:
                s.value(fn, tu, x)
            return
        if k == "var":
            s.check(fn, tu, e, "the variable " + str(e.get("n")))
            if (fn.m, e["id"]) in s.seen:
                return
            s.seen.add((fn.m, e["id"]))
            for ti, n in s.body(fn.tu, fn.d["body"]):
                if n.get("k") == "decl":
                    for d in n["d"]:
                        if d.get("id") == e["id"] and d.get("init") is not None:
                            s.value(fn, ti, d["init"])
                elif n.get("k") == "asg" and s.names(n["a"], e["id"]):
                    s.value(fn, ti, n["b"])
            return
        if k in ("bin", "asg"):
            if e["op"] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return
            s.check(fn, tu, e, "a sum")
            s.value(fn, tu, e["a"])
            s.value(fn, tu, e["b"])
            return
        if k == "cond":
            s.value(fn, tu, e["a"])
            s.value(fn, tu, e["b"])
            return
        if k == "un":
            return s.value(fn, tu, e["e"])
        if k in ("call", "mcall", "ocall"):
            f = e.get("f")
            d = s.P.tus[tu]["funcs"][f] if isinstance(f, int) else None
            g = s.P.fns.get(d["m"]) if d else None
            name = (d or {}).get("q", "")
            s.check(fn, tu, e, "the result of " + (name or "a call"))
            if g is not None and mine(g):
                s.function(g)
            elif name.startswith("std::") and k == "call":
                for x in e["a"]:
                    if x.get("k") == "lam":
                        for i in x["fs"]:
                            ld = s.P.tus[tu]["funcs"][i]
                            lf = s.P.fns.get(ld["m"]) if ld else None
                            if lf is not None:
                                s.function(lf)
                    t = s.P.ty(tu, x["t"])
                    for w in ("int", "unsigned int", "short", "unsigned short"):
                        if t.c == "record" and t.s.replace("struct ", "") == f"std::plus<{w}>":
                            s.bad.append((s.P.loc(fn, e.get("l")), f"a sum of type {w}"))
                    if t.c == "int":
                        s.value(fn, tu, x)
            return

    def names(s, e, i):
        while isinstance(e, dict) and e.get("k") == "cast":
            e = e["e"]
        return isinstance(e, dict) and e.get("k") == "var" and e.get("id") == i


def edge_counts(r):
    P = r.P
    done = {}
    for fn in P.fns.values():
        if not (mine(fn) and fn.has_body):
            continue
        if fn.q.split("::")[-1] == "n_edges":
            s = Slice(P)
            s.function(fn)
            r.functions[fn.q] = P.loc(fn)
            put(done, "the number of edges is counted in 64 bits", P.loc(fn), s.bad)
        for n in walk([fn.d.get("inits"), fn.d["body"]]):
            if n.get("k") != "cast" or n.get("ck") not in ("IntegralCast", "FloatingCast"):
                continue
            e = n["e"]
            f = e.get("f") if isinstance(e, dict) and e.get("k") == "mcall" else None
            d = P.tus[fn.tu]["funcs"][f] if isinstance(f, int) else None
            if d and d["q"].split("::")[-1] == "n_edges":
                t = P.ty(fn.tu, n["t"])
                bad = [(P.loc(fn, n["l"]), f"the number of edges is kept as {t.s}")] if t.c == "int" and t.bits < 64 else []
                put(done, "the number of edges stays in 64 bits", P.loc(fn, n["l"]), bad)
    for (label, loc), bad in sorted(done.items()):
        if bad:
            r.items.append(Item(label, bad[0][0], "violated", RULE_WIDTH, {"why": "; ".join(sorted({f"{a}: {b}" for a, b in bad}))}))
        else:
            r.items.append(Item(label, loc, "discharged", RULE_WIDTH))


def put(done, label, loc, bad):
    done.setdefault((label, loc), []).extend(bad)


def reached(r):
    """after the harnesses: is every division and difference of the program among what they met?"""
    P = r.P
    met = {it.loc for it in r.items if it.label.endswith(": never")}
    sites = {}
    for fn in P.fns.values():
        if not (mine(fn) and fn.has_body):
            continue
        inner = set()
        for n in walk([fn.d.get("inits"), fn.d["body"]]):
            k = n.get("k")
            if k not in ("bin", "asg") or n["op"] not in ("/", "%", "-", "/=", "%=", "-="):
                continue
            t = P.ty(fn.tu, n.get("ct") if k == "asg" and isinstance(n.get("ct"), int) else n["t"])
            if t.c != "int":
                continue
            if n["op"][0] == "-":
                if t.signed:
                    continue
                for x in (n["a"], n["b"]):
                    inner.add(id(x))
            elif n["b"].get("k") == "int" or n["b"].get("k") == "cast" and n["b"]["e"].get("k") == "int":
                continue  # by a constant, which the compiler has checked
            if id(n) not in inner:
                sites.setdefault(P.loc(fn, n["l"]), fn.q)
    for loc, q in sorted(sites.items()):
        ok = loc in met
        r.items.append(Item("an integer operation in " + q, loc, "discharged" if ok else "undecided", RULE_REACH if ok else "no harness reaches this operation"))


RULE_ACCESS = "the access is analysed by one of the harnesses of this property"
ELEMENTS = {"operator[]": 1, "at": 1, "front": 0, "back": 0, "pop_back": 0, "top": 0, "pop": 0, "value": 0, "operator*": 0, "operator->": 0}
HOLDERS = ("std::vector", "std::span", "std::priority_queue", "std::optional", "std::deque", "std::stack", "std::queue")


def accessed(r):
    """after the harnesses: is every element access of the program among what they met?"""
    P = r.P
    met = {it.loc for it in r.items if it.label.endswith(": never")}
    sites = {}
    for fn in P.fns.values():
        if not (mine(fn) and fn.has_body):
            continue
        for n in walk([fn.d.get("inits"), fn.d["body"]]):
            if n.get("k") not in ("mcall", "ocall"):
                continue
            f = P.tus[fn.tu]["funcs"][n["f"]]
            q = f.get("q") or ""
            if "::" in q and q.rsplit("::", 1)[1] in ELEMENTS and q.startswith(HOLDERS):
                sites.setdefault(P.loc(fn, n["l"]), fn.q)
    for loc, q in sorted(sites.items()):
        ok = loc in met
        r.items.append(Item("an element access in " + q, loc, "discharged" if ok else "undecided", RULE_ACCESS if ok else "no harness reaches this access"))
