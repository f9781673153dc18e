"""C30: one definition of every function and class, used by every translation unit, and reached by every way of calling it."""
import re

import prog
from driver import Item
from effects import Effects, walk


def canon(P, ti, node, ids):
    """a syntax tree without the numbering of its translation unit"""
    if isinstance(node, list):
        return [canon(P, ti, x, ids) for x in node]
    if not isinstance(node, dict):
        return node
    out = {}
    for k, v in node.items():
        if k == "l":
            continue
        if k in ("t", "vt", "cls", "ct", "rt", "base") and isinstance(v, int):
            out[k] = re.sub(r"\(lambda at [^)]*\)", "(lambda)", P.ty(ti, v).s)
        elif k in ("f",) and isinstance(v, int):
            g = P.tus[ti]["funcs"][v]
            out[k] = (g or {}).get("m") if not str((g or {}).get("m", "")).startswith("L:") else "lambda"
        elif k == "fs":
            out[k] = [canon(P, ti, (P.tus[ti]["funcs"][x] or {}).get("body"), ids) for x in v]
        elif k in ("id", "hid") and isinstance(v, int):
            out[k] = ids.setdefault(v, len(ids))
        else:
            out[k] = canon(P, ti, v, ids)
    return out


def definition(f):
    return [[i for i in f.get("inits") or [] if i.get("written")], f["body"]]


def mine(f):
    return (f.get("file") or "").startswith(prog.REPO + "/") or (f.get("patfile") or "").startswith(prog.REPO + "/")


def short(q):
    return q.replace("Seldon::", "")


def at(f):
    return (f.get("file") or "").replace(prog.REPO + "/", "") + ":" + str(f.get("line"))


def unit(P, ti):
    return P.tus[ti]["tu"].replace(prog.REPO + "/", "").replace(prog.VERIF + "/", "")


def one_definition(r):
    P = r.P
    E = Effects(P)
    for f in E.fns:
        r.functions[f.q] = P.loc(f)
    items = r.items

    def verdict(label, loc, why, rule):
        items.append(Item(label, loc, "violated" if why else "discharged", rule, {"why": why} if why else None))

    R1 = "a function has the same definition in every translation unit that sees one, and is a specialisation in all or none"
    by = {}
    for ti, tu in enumerate(P.tus):
        if ti in P.broken:
            continue
        for f in tu["funcs"]:
            if f and not f.get("dep") and mine(f) and "m" in f:
                by.setdefault(f["m"], []).append((ti, f))
    for m, l in sorted(by.items()):
        why = None
        spec = [(ti, f) for ti, f in l if f.get("tsk") == 2]
        plain = [(ti, f) for ti, f in l if f.get("tsk") != 2 and "body" in f]
        loc = at(next((f for _, f in l if "body" in f), l[0][1]))
        if spec and plain:
            why = f"{unit(P, plain[0][0])} instantiates the general definition ({at(plain[0][1])}), {unit(P, spec[0][0])} has a specialisation ({at(spec[0][1])})"
        bodies = [(ti, f) for ti, f in l if "body" in f and not str(m).startswith("L:")]
        if not why and len(bodies) > 1:
            a = canon(P, bodies[0][0], definition(bodies[0][1]), {})
            for ti, f in bodies[1:]:
                if canon(P, ti, definition(f), {}) != a:
                    why = f"{unit(P, bodies[0][0])} and {unit(P, ti)} see different definitions"
                    break
        if not why:
            where = {(f.get("patfile") or f.get("file"), f.get("patline") or f.get("line")) for _, f in bodies}
            if len(where) > 1:
                why = "defined at " + " and ".join(sorted(f"{(a or '').replace(prog.REPO + '/', '')}:{b}" for a, b in where))
        if bodies or why:
            verdict(short(l[0][1]["q"]), loc, why, R1)

    R2 = "a class has the same members in every translation unit"
    recs = {}
    for ti, tu in enumerate(P.tus):
        if ti in P.broken:
            continue
        for x in tu["records"]:
            if x and not x.get("lambda") and (x.get("file") or "").startswith(prog.REPO + "/"):
                recs.setdefault(x["s"], []).append((ti, x))
    for n, l in sorted(recs.items()):
        def shape(ti, x):
            return [(f["n"], P.ty(ti, f["t"]).s) for f in x["fields"]], [P.ty(ti, b).s for b in x["bases"]]

        a = shape(*l[0])
        why = None
        for ti, x in l[1:]:
            if shape(ti, x) != a:
                why = f"{unit(P, l[0][0])} and {unit(P, ti)} see different members"
        verdict("members of " + short(n), at(l[0][1]), why, R2)

    R3 = "a member function that has the name of an inherited one overrides it"
    for n, l in sorted(recs.items()):
        ti, x = l[-1]
        for mm in x.get("methods", []):
            f = P.tus[ti]["funcs"][mm["f"]]
            if f is None or f.get("kind") in ("ctor", "dtor", "conv") or f.get("static") or str(f.get("n", "")).startswith("operator") or f.get("dep"):
                continue
            hidden = None
            for b in ancestors(P, ti, x):
                for om in b[1].get("methods", []):
                    g = P.tus[b[0]]["funcs"][om["f"]]
                    if g is not None and g.get("n") == f.get("n") and not g.get("static"):
                        hidden = (b[1], g)
            if hidden is None:
                continue
            why = None
            if not mm.get("over"):
                why = f"hides {short(hidden[0]['s'])}::{f['n']}: called through that class, the other one runs"
            verdict(short(f["q"]) + " overrides", at(f), why, R3)

    R4 = "every model has a step of its own: the final overrider of each virtual member is defined and does something"
    imp = E.impure()
    for n, l in sorted(recs.items()):
        ti, x = l[-1]
        anc = ancestors(P, ti, x)
        if not any(re.match(r"Seldon::Model<", b[1]["s"]) for b in anc):
            continue
        if any(re.match(r"Seldon::Model<", y["s"]) is None and any(a[1]["s"] == n for a in ancestors(P, t2, y)) for y_n, l2 in recs.items() for t2, y in l2[-1:]):
            pass
        f, owner = overrider(P, ti, x, anc, "iteration")
        label = "the step of " + short(n)
        if f is None:
            verdict(label, at(x), "it has none", R4)
            continue
        g = P.fns.get(f["m"])
        # a class that is only a base of the models and never made needs none
        made = any(is_made(P, E, n) for _ in (0,))
        if g is None or not g.has_body:
            verdict(label, at(f), f"{short(f['q'])} is not defined anywhere" if made else None, R4)
            continue
        calls = {c for c in E.calls.get(g.m, ()) if c in imp}
        own = re.match(r"Seldon::Model<", owner["s"]) is None
        other = {c for c in calls if not re.match(r"Seldon::Model<.*>::iteration$", P.fns[c].q)}
        why = None
        if made and not own:
            why = "it inherits the one that only counts"
        elif made and not other and not direct(E, g):
            why = f"{short(g.q)} ({P.loc(g)}) does nothing"
        verdict(label, P.loc(g), why, R4)
    r.notes.append(f"{len(by)} functions, {len(recs)} classes in {len(P.tus)} translation units")


def direct(E, g):
    return g.m in E.impure_direct


def is_made(P, E, n):
    """an object of class n is made somewhere"""
    for fn in E.fns:
        for e in walk(fn.d["body"]):
            if e.get("k") in ("ctor", "new") and "t" in e and re.sub(r"^const | ?\*$", "", P.ty(fn.tu, e["t"]).s) == n:
                return True
            if e.get("k") == "call" and e.get("f") is not None:
                g = P.fn(fn.tu, e["f"])
                if g is not None and g.q.startswith("std::make_") and (f"<{n}" in g.q or f"<{n}" in P.ty(fn.tu, e["t"]).s):
                    return True
    return False


def ancestors(P, ti, x):
    out, todo, seen = [], [(ti, x)], set()
    while todo:
        t, y = todo.pop(0)
        for b in y["bases"]:
            bt = P.ty(t, b)
            rr = P.recs.get(re.sub(r"^const ", "", bt.s))
            if rr is not None and rr.d["s"] not in seen:
                seen.add(rr.d["s"])
                out.append((rr.tu, rr.d))
                todo.append((rr.tu, rr.d))
    return out


def overrider(P, ti, x, anc, name):
    for t, y in [(ti, x)] + anc:
        for mm in y.get("methods", []):
            f = P.tus[t]["funcs"][mm["f"]]
            if f is not None and f.get("n") == name:
                return f, y
    return None, None
