"""Value-flow summaries: abstract interpretation of the typed syntax tree over the term domain of terms.py.

Branches are merged by gating (no path enumeration); loops are summarised by solving the recurrences of the locations
they modify (sums, products, extrema, overwrites, appends), and become canonical 'fold' terms when no rule applies.
Anything outside the modelled language becomes an unknown atom ('?...'), which never supports an alarm.
"""
from fractions import Fraction
import re
import time

from terms import *
import terms as TT
import prog
from prog import AnalysisError

NPOS = const(-1)  # as a size: wraps around to the largest one


class Undecided(Exception):
    pass


class Leaf:
    __slots__ = ("root", "path", "name", "kind", "sort", "ns")


def kind_of(t):
    while t.isref or t.c == "ptr":
        t = t.of
    if t.c != "record":
        return t.c
    n = re.sub(r"^const ", "", t.s).split("<")[0]
    return "text" if n in ("std::basic_string", "std::basic_string_view", "std::filesystem::path", "std::filesystem::__cxx11::path") else n


class Frame:
    def __init__(s, fn, tu, this):
        s.fn, s.tu, s.this = fn, tu, this
        s.env = {}
        s.exits = []
        s.retref = False
        s.streams = []


def ref(root, path=()):
    return mk("ref", root, tuple(path))


def refx(r, *steps):
    """extend reference r"""
    if r.op == "ref":
        return mk("ref", r.a[0], r.a[1] + tuple(steps))
    if is_dd(r):
        return lift_any(lambda x: refx(x, *steps), r)
    return app("?refx", r, *[lit(str(x)) for x in steps])


def F(n):
    return ("f", n)


def I(i):
    return ("i", i)


def sort_of(ty):
    while ty is not None and ty.isref:
        ty = ty.of
    if ty is None:
        return "v"
    if ty.c == "float":
        return "r"
    if ty.c == "bool":
        return "b"
    if ty.c in ("int",):
        return "i" if ty.signed else "u"
    if ty.c == "enum":
        return "i"
    return "v"


def single(v):
    """v as a float holds it"""
    return lift_any(lambda x: x if is_int(x) or cval(x) is not None and int(cval(x) * 4096) == cval(x) * 4096 or x.op == "app" and x.a[0] == "single" else app("single", x, sort="r"), v)


def coerce(v, sort):
    if sort == "v" or v.sort != "v":
        return v
    if v.op == "app":
        return mk("app", *v.a, sort=sort)
    if is_dd(v):
        return lift_any(lambda x: coerce(x, sort), v)
    return v


def getp(v, path):
    k = 0
    while k < len(path):
        p = path[k]
        k += 1
        if p[0] == "f":
            v = field(v, p[1])
        elif v.op == "sfor":
            e = k
            while e < len(path) and path[e][0] == "f":
                e += 1
            v = at_fields(v, p[1], [x[1] for x in path[k:e]])
            k = e
        else:
            v = at_any(v, p[1])
    return v


def at_any(v, i):
    if v.op == "app" and v.unk:
        return app("?at", v, i)
    if is_dd(v) and not is_seq(v):
        return lift_any(lambda x: at_any(x, i), v)
    return TT.at(as_seq(v) if not is_seq(v) else v, i)


def putp(v, path, new):
    if not path:
        return new
    p = path[0]
    if p[0] == "f":
        if v.op == "struct":
            return setfield(v, p[1], putp(field(v, p[1]), path[1:], new))
        if is_dd(v):
            return lift_any(lambda x: putp(x, path, new), v)
        return app("?put", v, new)
    return supd(v, p[1], lambda old: putp(old, path[1:], new))


def pointwise(t):
    """an opaque sequence as a comprehension over its length"""
    if t.op in ("sopq", "scv"):
        n = slen(t)
        s = fresh("p")
        set_range(s, n if not is_dd(n) else None)
        return mk("sfor", n, close(s, selem(TT.at(t, s)), n))
    return t


def _inner(p):
    return p.a[1] if p.op == "sif" else p


def same_part(p, q):
    """parts of two sequences that differ in their elements at most"""
    if p is q:
        return True
    if p.op != q.op:
        return False
    if p.op == "sif":
        return p.a[0] is q.a[0]
    if p.op == "sfor":
        return p.a[0] is q.a[0]
    return p.op == "selem" and not _texty(p) and not _texty(q)


def supd(t, i, f):
    if t.unk and t.op == "app":
        return app("?upd", t, i)
    if not is_seq(t):
        t = as_seq(t)
    parts = list(t.a) if t.op == "scat" else [t]
    o = ZERO
    res = []
    for k, p in enumerate(parts):
        n = slen(p)
        d = sub(i, o)
        if len(parts) > 1 and not is_dd(d):
            if is_nonneg_any(sub(d, n)) or is_nonneg_any(sub(neg(d), ONE)):
                res.append(p)
                o = add(o, n)
                continue
        res.append(_upd_part(p, d, f))
        o = add(o, n)
    return scat(res)


def is_nonneg_any(t):
    return is_nonneg(t)


def _upd_part(p, d, f):
    if p.op == "selem":
        if p.a[0].op == "lit" or (p.a[0].op == "app" and p.a[0].a[0] in ("fmt", "tostr")):
            return as_seq(app("?updtext", p))
        return selem(ite(eq_(d, ZERO), f(p.a[0]), p.a[0]))
    if p.op == "sif":
        return sif(p.a[0], _upd_part(p.a[1], d, f))
    if p.op in ("scv", "sopq"):
        p = pointwise(p)
    if p.op == "sfor":
        s = fresh("u")
        set_range(s, p.a[0])
        b = open_bv(p.a[1], p.h, s)
        if b.op == "selem":
            x = b.a[0]
            return sfor(p.a[0], s, selem(ite(eq_(s, d), f(x), x)))
    if p.op == "scat":
        return supd(p, d, f)
    return as_seq(app("?updseq", p, d))


def resize(t, n, fill):
    """fill: value of new elements"""
    if not is_seq(t):
        t = as_seq(t)
    m = slen(t)
    if m is n:
        return t
    if n is ZERO:
        return SEMPTY
    s = fresh("z")
    set_range(s, n if not is_dd(n) else None)
    if t is SEMPTY:
        return sfor(n, s, selem(fill))
    if is_nonneg(sub(m, n)):
        return sfor(n, s, selem(TT.at(t, s)))
    return sfor(n, s, selem(ite(lt_(s, m), TT.at(t, s), fill)))


def subseq(t, lo, n):
    if lo is ZERO and slen(t) is n:
        return t
    s = fresh("w")
    set_range(s, n if not is_dd(n) else None)
    return sfor(n, s, selem(TT.at(t, add(lo, s))))


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        ch = q[i]
        if q.startswith("operator<<", i) or q.startswith("operator<=", i) or q.startswith("operator->", i) or q.startswith("operator>>", i):
            k = 10
            if q.startswith("operator<=>", i):
                k = 11
            if d == 0:
                out.append(q[i : i + k])
            i += k
            continue
        if q.startswith("operator<", i) or q.startswith("operator>", i):
            if d == 0:
                out.append(q[i : i + 9])
            i += 9
            continue
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


INDETERMINATE = "indeterminate value"
_indet = {}


def never_written(x):
    """an unwritten value, or a sum with one"""
    if x.op == "app":
        return x.a[0] == "uninit"
    return x.op == "poly" and any(y.op == "app" and y.a[0] == "uninit" for m, c in x.a[0] for y, k in m)


def indeterminate(v):
    """the condition under which v was never written"""
    if not is_dd(v):
        return TRUE if never_written(v) else FALSE
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x.id in seen or _indet.get(x.id) is False:
            continue
        seen.add(x.id)
        if is_dd(x):
            todo.extend(x.a[1:])
        elif never_written(x):
            return lift_any(lambda y: TRUE if never_written(y) else FALSE, v)
    for i in seen:
        _indet[i] = False
    return FALSE


class Interp:
    def __init__(s, prog, summarise=None, deadline=None):
        s.P = prog
        s.st = {"$files": SEMPTY}
        s.path = TRUE
        s.frames = []
        s.pstack = []
        s.trapkinds = set()
        s.at = None  # the library call being modelled
        s.trapped = []
        s.trapsites = set()
        s.fr = None
        s.nroot = 0
        s.loopsyms = ()
        s.clos = []
        s.obls = []
        s.draws = []
        s.picks = {}
        s.visited = {}
        s.unknown = {}
        s.loops = []
        s.deadline = deadline
        s.summarise = summarise or {}
        s.replaced = {}
        s.argnames = {}
        s.replaced_within = {}  # only for the calls a function makes to itself
        s.replacers, s.replacers_used = set(), set()
        s.ginit = {}
        s.depth = 0
        import stdlib

        s.lib = stdlib
        s._stripq = {}
        s.lamvals = {}

    # ------------------------------------------------------------ utilities
    def unk(s, what, node=None, sort="v"):
        k = what
        if node is not None and s.fr is not None:
            loc = f"{s.P.loc(s.fr.fn, node.get('l'))}" if s.fr.fn else "?"
            s.unknown.setdefault(k, loc)
        else:
            s.unknown.setdefault(k, "")
        s.nroot += 1
        return app("?" + what, const(s.nroot), *s.loopsyms, sort=sort)

    def newroot(s, hint, v):
        s.nroot += 1
        r = f"{hint}@{s.nroot}"
        s.st[r] = v
        return ref(r)

    def rd(s, r, ty=None):
        v = s._rd(r)
        if ty is not None:
            v = coerce(v, sort_of(ty))
        return v

    def _rd(s, r):
        if r.op == "ref":
            v = s.st.get(r.a[0])
            if v is None:
                return s.unk("dangling:" + r.a[0])
            return getp(v, r.a[1])
        if is_dd(r):
            return lift_any(s._rd, r)
        if r.op == "iter":
            return s._rd(s.deref(r))
        return app("?rd", r)

    def wr(s, r, v):
        if r.op == "ref":
            root = r.a[0]
            if root not in s.st:
                s.unk("dangling:" + root)
                return
            s.st[root] = putp(s.st[root], r.a[1], v)
        elif is_dd(r):
            q = r.a[0]
            n = len(r.a) - 1
            for i in range(n):
                c = [FALSE] * n
                c[i] = TRUE
                cond = rebuild(q, n, c)
                for_cond = cond
                old = dict(s.st)
                s.wr(r.a[1 + i], v)
                new = s.st
                s.st = s.merge(for_cond, new, old)
        elif r.op == "iter":
            s.wr(s.deref(r), v)
        else:
            # unknown target: everything may have changed
            for k in list(s.st):
                if not k.startswith("$"):
                    s.st[k] = s.unk("wildwrite")

    def deref(s, p):
        """pointer value -> reference"""
        if p.op == "iter":
            return refx(p.a[0], I(p.a[1]))
        if p.op == "ref":
            return p
        if is_dd(p):
            if any(x is lit(None) for x in dd_leaves(p)):
                p = s.not_null(p)
                if not is_dd(p):
                    return s.deref(p)
            return lift_any(s.deref, p)
        return app("?deref", p)

    def not_null(s, p):
        """what is left of a pointer where the path excludes that it is null"""
        try:
            ctx = s.pathctx()
            if ctx is TRUE:
                return p
            out = lit("$outside")
            q = prune(lift_any(lambda c: p if c is TRUE else out, ctx))
            left = {x for x in dd_leaves(q) if x is not out}
            if len(left) == 1:
                return left.pop()
        except TooBig:
            pass
        return p

    def merge(s, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        out = dict(b)
        for k, v in b.items():
            if k.startswith("$o") and k not in a:
                out[k] = ite(c, ZERO, v)
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                out[k] = ite(c, v, ZERO) if k.startswith("$o") else v
            elif w is not v:
                out[k] = ite(c, v, w)
        return out

    def pathctx(s):
        """path condition including the callers'"""
        c = s.path
        for f in s.pstack:
            c = and_(c, f)
        return c

    def exit(s, kind, cond=TRUE, val=None):
        c = and_(s.path, cond)
        if c is not FALSE:
            s.fr.exits.append((c, dict(s.st), kind, val))
            s.path = and_(s.path, not_(cond))

    def ty(s, i):
        return s.P.ty(s.fr.tu, i)

    def tyof(s, e):
        return s.ty(e["t"])

    # ------------------------------------------------------------ default values
    def default(s, ty, zero=True):
        if ty.isref:
            return s.unk("refdefault")
        c = ty.c
        if c == "bool":
            return FALSE if zero else app("uninit", lit("b"), sort="b")
        if c in ("int", "enum"):
            return ZERO if zero else app("uninit", lit("i"), sort="i")
        if c == "float":
            return ZERO if zero else app("uninit", lit("r"), sort="r")
        if c == "ptr":
            return lit(None)
        if c == "array":
            n = ty.n or 0
            return scat([selem(s.default(ty.of, zero)) for _ in range(n)])
        if c == "record":
            return s.default_record(ty, zero)
        return s.unk("default:" + ty.s)

    def default_record(s, ty, zero=True):
        n = (ty.n if isinstance(ty.n, str) else "")
        d = s.lib.default_value(s, n, ty)
        if d is not None:
            return d
        rec = s.P.rec(ty)
        if rec is None:
            return s.unk("default:" + ty.s)
        # user default constructor with a body
        for m in rec.d.get("methods", []):
            fn = s.P.fn(rec.tu, m["f"])
            if fn is not None and fn.d.get("kind") == "ctor" and not fn.d.get("params") and fn.has_body:
                return s.construct(fn, ty, [])
        return s.aggregate(ty, [])

    def fields_of(s, rec):
        """[(key, tu, field)] of the record and its bases"""
        out = []
        for b in rec.d.get("bases", []):
            bt = s.P.ty(rec.tu, b if isinstance(b, int) else b["t"])
            br_ = s.P.rec(bt)
            if br_ is not None:
                out.extend(s.fields_of(br_))
        names = {k for k, _, _, _ in out}
        for f in rec.d["fields"]:
            k = f["n"]
            if k in names:
                k = rec.d["s"] + "::" + k
            out.append((k, rec.tu, f, rec))
        return out

    def with_tu(s, tu, f):
        old = s.fr
        fr = Frame(old.fn if old else None, tu, old.this if old else None)
        s.fr = fr
        try:
            return f()
        finally:
            s.fr = old
            if old is not None:
                old.exits.extend(fr.exits)

    def aggregate(s, ty, vals):
        rec = s.P.rec(ty)
        if rec is None:
            d = s.lib.default_value(s, ty.n, ty) if isinstance(ty.n, str) and not vals else None
            return d if d is not None else s.unk("aggregate:" + ty.s)
        d = {"$cls": lit(rec.d["s"])}
        for i, (k, tu, f, r) in enumerate(s.fields_of(rec)):
            if i < len(vals) and vals[i] is not None:
                d[k] = vals[i]
            elif isinstance(f.get("init"), dict) and f["init"].get("cls") != "uninstantiated-init":
                d[k] = s.with_tu(tu, lambda: s.init_value(f["init"], s.P.ty(tu, f["t"])))
            else:
                ft = s.P.ty(tu, f["t"])
                d[k] = s.default(ft, zero=True) if not ft.isref else s.unk("unboundref")
        return struct(d)

    # ------------------------------------------------------------ expressions
    def ev(s, e):
        """value of expression e"""
        if s.deadline and time.time() > s.deadline:
            raise Undecided("time")
        k = e["k"]
        if e.get("lv"):
            if k == "str":
                return s.string(e)
            r = s.lv(e)
            v = s.rd(r, s.tyof(e) if "t" in e else None)
            if "t" in e:
                s.read(v, s.tyof(e), e)
            return v
        m = getattr(s, "ev_" + k, None)
        if m is None:
            return s.unk("expr:" + k, e)
        v = m(e)
        if v is None:
            return lit(None)
        if "t" in e:
            v = coerce(v, sort_of(s.tyof(e)))
        return v

    def read(s, v, ty, e):
        if INDETERMINATE in s.trapkinds and ty.c in ("int", "float", "bool", "enum"):
            s.trap(INDETERMINATE, indeterminate(v), e)

    def string(s, e):
        return selem(lit(e["v"])) if e["v"] else SEMPTY

    def lv(s, e):
        """reference denoted by e (materialises rvalues)"""
        k = e["k"]
        if not e.get("lv"):
            if k in ("mem",):
                pass
            elif k == "call" or k == "mcall" or k == "ocall":
                r = s.callexpr(e, want_ref=True)
                return r
            else:
                v = s.ev(e)
                return s.newroot("tmp", v)
        m = getattr(s, "lv_" + k, None)
        if m is None:
            v = s.unk("lvexpr:" + k, e)
            return s.newroot("tmp", v)
        return m(e)

    def ev_int(s, e):
        return const(int(e["v"]))

    def ev_float(s, e):
        v = e["v"]
        try:
            # the literal's exact value, rounded back to the shortest decimal when it is the same double
            f = float(v)
            return const(Fraction(repr(f)))
        except (ValueError, OverflowError):
            return s.unk("float", e, "r")

    def ev_bool(s, e):
        return TRUE if e["v"] else FALSE

    def ev_char(s, e):
        return const(int(e["v"])) if not isinstance(e["v"], str) or e["v"].lstrip("-").isdigit() else const(ord(e["v"]))

    def ev_str(s, e):
        return s.string(e)

    def lv_str(s, e):
        return s.newroot("str", s.string(e))

    def ev_null(s, e):
        return lit(None)

    def ev_enumc(s, e):
        return const(int(e["v"]))

    def ev_zero(s, e):
        return s.default(s.tyof(e))

    def ev_this(s, e):
        return s.fr.this if s.fr.this is not None else s.unk("this", e)

    def ev_fn(s, e):
        return mk("fnv", s.P.fn(s.fr.tu, e["f"]).m)

    lv_fn = ev_fn

    def lv_var(s, e):
        i = e["id"]
        for fr in (s.fr,):
            if i in fr.env:
                return fr.env[i]
        g = e.get("g")
        if g is not None:
            return s.global_ref(g, e)
        v = s.unk("var:" + str(e.get("n")), e)
        r = s.newroot("var", v)
        s.fr.env[i] = r
        return r

    def ev_var(s, e):
        return s.rd(s.lv_var(e), s.tyof(e) if "t" in e else None)

    def global_ref(s, g, e=None):
        root = "g:" + g
        if root not in s.st:
            if g.endswith("::npos"):
                s.st[root] = NPOS
            elif g == "std::nullopt":
                s.st[root] = mk("nullopt")
            elif g in s.P.globals and "init" in s.P.globals[g][1]:
                tu, d = s.P.globals[g]
                s.st[root] = s.with_tu(tu, lambda: s.init_value(d["init"], s.P.ty(tu, d["t"])))
            else:
                s.st[root] = app("glob:" + g, sort=sort_of(s.tyof(e)) if e is not None and "t" in e else "v")
        return ref(root)

    def memkey(s, base, e):
        return e["n"]

    def _memref(s, r, e):
        n = e["n"]
        # disambiguate hidden members
        if "cls" in e:
            q = s.ty(e["cls"]).s + "::" + n
            q = re.sub(r"^const ", "", q)
            if q in s.qualified:
                v = s._rd(r)
                if v.op == "struct" and any(k == q for k, _ in v.a[0]):
                    n = q
        return n

    qualified = frozenset()

    def lv_mem(s, e):
        if e.get("arrow"):
            p = s.ev(e["b"])
            r = s.deref(p)
        else:
            r = s.lv(e["b"])
        n = s._memref(r, e)
        # reference members
        root_v = s._rd(r)
        fv = field(root_v, n) if root_v.op == "struct" or is_dd(root_v) else None
        if fv is not None and s.isrefmember(e):
            return fv
        return refx(r, F(n))

    def isrefmember(s, e):
        if "cls" not in e:
            return False
        t = s.ty(e["cls"])
        rec = s.P.rec(t)
        if rec is None:
            return False
        for f in rec.d["fields"]:
            if f["n"] == e["n"]:
                return s.P.ty(rec.tu, f["t"]).isref
        for b in rec.d.get("bases", []):
            pass
        return False

    def ev_mem(s, e):
        return s.rd(s.lv_mem(e), s.tyof(e) if "t" in e else None)

    def lv_sub(s, e):
        b = e["a"]
        bt = s.tyof(b)
        i = s.ev(e["b"])
        if bt.c == "ptr":
            p = s.ev(b)
            return s.deref(s.ptradd(p, i))
        return refx(s.lv(b), I(i))

    ev_sub = lambda s, e: s.rd(s.lv_sub(e))

    def ptradd(s, p, n):
        if p.op == "iter":
            return mk("iter", p.a[0], add(p.a[1], n))
        if is_dd(p):
            return lift_any(lambda x: s.ptradd(x, n), p)
        if p.op in ("ref", "lit") and n is ZERO:
            return p
        return app("?ptradd", p, n)

    def ev_un(s, e):
        op = e["op"]
        if op in ("++", "--"):
            r = s.lv(e["e"])
            old = s.rd(r, s.tyof(e["e"]))
            s.read(old, s.tyof(e["e"]), e)
            new = s.incr(old, 1 if op == "++" else -1)
            s.wr(r, new)
            return old if e.get("post") else new
        if op == "&":
            r = s.lv(e["e"])
            return s.addr(r)
        if op == "*":
            return s.rd(s.lv_un(e), s.tyof(e))
        v = s.ev(e["e"])
        if op == "-":
            return neg(v) if not v.unk or v.op in TT.NUM else app("?neg", v)
        if op == "+":
            return v
        if op == "!":
            return not_(s.boolean(v))
        return s.unk("un" + op, e)

    def incr(s, v, d):
        if v.op == "iter":
            return mk("iter", v.a[0], add(v.a[1], const(d)))
        if is_dd(v):
            return lift_any(lambda x: s.incr(x, d), v)
        return add(v, const(d))

    def addr(s, r):
        if r.op == "ref" and r.a[1] and r.a[1][-1][0] == "i":
            return mk("iter", mk("ref", r.a[0], r.a[1][:-1]), r.a[1][-1][1])
        if is_dd(r):
            return lift_any(s.addr, r)
        return r

    def lv_un(s, e):
        op = e["op"]
        if op == "*":
            return s.deref(s.ev(e["e"]))
        if op in ("++", "--"):
            r = s.lv(e["e"])
            s.read(s.rd(r, s.tyof(e["e"])), s.tyof(e["e"]), e)
            s.wr(r, s.incr(s.rd(r, s.tyof(e["e"])), 1 if op == "++" else -1))
            return r
        return s.newroot("tmp", s.ev_un(e))

    def boolean(s, v):
        if v.sort == "b":
            return v
        if v.op in TT.NUM or (is_dd(v) and v.sort in ("i", "u", "r")):
            return not_(eq_(v, ZERO))
        if v.op == "lit":
            return FALSE if v.a[0] is None else TRUE
        if v.op in ("ref", "iter"):
            return TRUE
        if is_dd(v):
            return lift_any(s.boolean, v)
        if v.op == "app":
            return mk("app", *v.a, sort="b")
        return app("?bool", v, sort="b")

    def ev_bin(s, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = s.boolean(s.ev(e["a"]))
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            b = s.guarded(a if op == "&&" else not_(a), lambda: s.boolean(s.ev(e["b"])))
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            s.ev(e["a"])
            return s.ev(e["b"])
        ty = s.tyof(e)
        if s.trapkinds and op in ("+", "-") and ty.c == "int" and not ty.signed:
            return s.ev_chain(e, ty)
        a = s.ev(e["a"])
        b = s.ev(e["b"])
        return s.arith(op, a, b, ty, e)

    def ev_chain(s, e, ty):
        """a sum or difference of unsigned numbers: what is below zero on the way and back above at the end does no harm.
        A difference from npos (which is no size) is none either."""
        parts = []

        def go(x, sign):
            if x.get("k") == "bin" and x["op"] in ("+", "-") and s.tyof(x).s == ty.s:
                a = go(x["a"], sign)
                b = go(x["b"], sign if x["op"] == "+" else -sign)
                return s.arith(x["op"], a, b, ty)
            v = s.ev(x)
            parts.append((v, sign))
            return v

        v = go(e, 1)
        if all(sign > 0 for _, sign in parts) or any(not (p.op in TT.NUM or p.sort in ("i", "u") or is_dd(p)) for p, _ in parts):
            return v
        c = lt_(v, ZERO)
        for p, _ in parts:
            c = and_(c, le_(ZERO, p))
        s.trap("below zero", c, e)
        return v

    def guarded(s, c, f):
        """evaluate f under condition c; effects are merged"""
        st0 = dict(s.st)
        p0 = s.path
        s.path = and_(p0, c)
        v = f()
        s.st = s.merge(c, s.st, st0)
        s.path = or_(and_(p0, not_(c)), s.path)
        return v

    def arith(s, op, a, b, ty, e=None):
        if a.op in ("iter",) or b.op == "iter":
            return s.iterarith(op, a, b)
        if (is_dd(a) or is_dd(b)) and any(l.op == "iter" for l in dd_leaves(a) + dd_leaves(b)):
            return lift_any(lambda x: lift_any(lambda y: s.arith(op, x, y, ty, e), b), a)
        if op == "+":
            return add(a, b)
        if op == "-":
            if e is not None and ty.c == "int" and not ty.signed and s.trapkinds:
                s.trap("below zero", and_(lt_(a, b), le_(ZERO, a)), e)
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if ty.c == "int":
                s.trap("division by zero", eq_(b, ZERO), e)
                return idiv(a, b)
            return div(a, b)
        if op == "%":
            s.trap("division by zero", eq_(b, ZERO), e)
            return imod(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return s.compare(op, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if op == "|" and a.sort == "b" and b.sort == "b":
                return or_(a, b)
            if op == "&" and a.sort == "b" and b.sort == "b":
                return and_(a, b)
            return app("bit" + op, a, b, sort="i")
        return s.unk("bin" + op, e)

    def trap(s, kind, cond, e):
        """records that the operation e goes wrong when cond holds (control continues)"""
        if kind not in s.trapkinds:
            return
        fn = s.fr.fn if s.fr else None
        if fn is None or not (fn.d.get("file") or "").startswith(prog.REPO):
            return
        c = prune(and_(s.path, cond)) if cond is not FALSE else FALSE
        if c is not FALSE:
            s.trapped.append((f"{kind}: {s.P.loc(fn, (e or {}).get('l'))}", c))
        s.trapsites.add((kind, s.P.loc(fn, (e or {}).get("l"))))

    def trapped_under(s, k, f):
        """what was recorded since mark k happens where f says"""
        out = []
        for l, c in s.trapped[k:]:
            c = f(c)
            if c is not FALSE:
                out.append((l, c))
        s.trapped[k:] = out

    def compare(s, op, a, b):
        num = lambda x: x.op in TT.NUM or x.sort in ("i", "u", "r", "b")
        if num(a) and num(b):
            if a.sort == "b" and b.sort != "b":
                a = b2i(a)
            if b.sort == "b" and a.sort != "b":
                b = b2i(b)
            if op in ("<", ">", "<=", ">="):
                a, b = unwrapped(a), unwrapped(b)
            if op == "<":
                return lt_(a, b)
            if op == ">":
                return lt_(b, a)
            if op == "<=":
                return le_(a, b)
            if op == ">=":
                return le_(b, a)
            if op == "==":
                return eq_(a, b)
            return not_(eq_(a, b))
        if op in ("==", "!="):
            r = s.equal(a, b)
            return r if op == "==" else not_(r)
        return app("?cmp" + op, a, b, sort="b")

    def equal(s, a, b):
        if a is b and not a.unk:
            return TRUE
        if is_dd(a) and a.sort == "v":
            return lift_any(lambda x: s.equal(x, b), a)
        if is_dd(b) and b.sort == "v":
            return lift_any(lambda x: s.equal(a, x), b)
        num = lambda x: x.op in TT.NUM or x.sort in ("i", "u", "r", "b")
        if num(a) and num(b):
            return eq_(TT._num(a), TT._num(b)) if a.sort != b.sort else eq_(a, b)
        if a.op == "struct" and b.op == "struct":
            da, db = dict(a.a[0]), dict(b.a[0])
            if "has" in da and "has" in db and "val" in da:
                return or_(and_(not_(da["has"]), not_(db["has"])), and_(and_(da["has"], db["has"]), s.equal(da["val"], db["val"])))
            if da.keys() == db.keys():
                r = TRUE
                for k in da:
                    if k == "$cls":
                        continue
                    r = and_(r, s.equal(da[k], db[k]))
                return r
        if a.op in ("ref", "lit", "iter") and b.op in ("ref", "lit", "iter"):
            if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
                return eq_(a.a[1], b.a[1])
            if a.op == "ref" and b.op == "ref" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                r = TRUE
                for p, q in zip(a.a[1], b.a[1]):
                    if p[0] != q[0]:
                        return FALSE
                    if p[0] == "f":
                        if p[1] != q[1]:
                            return FALSE
                    else:
                        r = and_(r, eq_(p[1], q[1]))
                return r
            return FALSE
        if is_seq(a) or is_seq(b):
            return s.seqeq(as_seq(a), as_seq(b))
        if not a.unk and not b.unk:
            x, y = (a, b) if a.id < b.id else (b, a)
            return app("same", x, y, sort="b")
        return app("?eq", a, b, sort="b")

    def seqeq(s, a, b):
        if a is b:
            return TRUE
        la = a.op == "selem" and a.a[0].op == "lit" or a is SEMPTY
        lb = b.op == "selem" and b.a[0].op == "lit" or b is SEMPTY
        if la and lb:
            return FALSE
        if a is SEMPTY:
            return eq_(slen(b), ZERO)
        if b is SEMPTY:
            return eq_(slen(a), ZERO)
        x, y = (a, b) if a.id < b.id else (b, a)
        return app("seqeq", x, y, sort="b")

    def iterarith(s, op, a, b):
        if a.op == "iter" and b.op == "iter":
            if a.a[0] is b.a[0]:
                if op == "-":
                    return sub(a.a[1], b.a[1])
                return s.compare(op, a.a[1], b.a[1])
            if op == "==":
                return FALSE
            if op == "!=":
                return TRUE
            return app("?iter" + op, a, b, sort="b" if op != "-" else "i")
        if op == "+":
            it, n = (a, b) if a.op == "iter" else (b, a)
            return s.ptradd(it, n)
        if op == "-":
            return s.ptradd(a, neg(b))
        if op in ("==", "!="):
            return FALSE if op == "==" else TRUE
        return app("?iter" + op, a, b)

    def ev_asg(s, e):
        return s.rd(s.lv_asg(e), s.tyof(e))

    def lv_asg(s, e):
        op = e["op"]
        if op == "=":
            # C++17: right operand first
            v = s.ev(e["b"])
            r = s.lv(e["a"])
            s.wr(r, s.fit(v, s.tyof(e["a"])))
            return r
        b = s.ev(e["b"])
        r = s.lv(e["a"])
        at_ = s.tyof(e["a"])
        a = s.rd(r, at_)
        s.read(a, at_, e)
        ct = s.ty(e["ct"]) if "ct" in e else at_
        v = s.arith(op[:-1], a, b, ct, e)
        if at_.s == "float":
            v = single(v)
        s.wr(r, s.fit(v, at_))
        return r

    def fit(s, v, ty):
        """implicit narrowing of compound assignments"""
        if ty.c == "int" and v.sort == "r":
            return trunc(v)
        return v

    def ev_cond(s, e):
        c = s.boolean(s.ev(e["c"]))
        if c is TRUE:
            return s.ev(e["a"])
        if c is FALSE:
            return s.ev(e["b"])
        return s.fork(c, lambda: s.ev(e["a"]), lambda: s.ev(e["b"]))

    def lv_cond(s, e):
        c = s.boolean(s.ev(e["c"]))
        if c is TRUE:
            return s.lv(e["a"])
        if c is FALSE:
            return s.lv(e["b"])
        return s.fork(c, lambda: s.lv(e["a"]), lambda: s.lv(e["b"]))

    def feasible(s, c):
        """(can be true here, can be false here)"""
        try:
            ctx = s.pathctx()
            if ctx is TRUE:
                return True, True
            return prune(and_(ctx, c)) is not FALSE, prune(and_(ctx, not_(c))) is not FALSE
        except TooBig:
            return True, True

    def fork(s, c, fa, fb):
        ct, cf = s.feasible(c)
        if not cf:
            return fa()
        if not ct:
            return fb()
        st0 = dict(s.st)
        p0 = s.path
        s.path = and_(p0, c)
        a = fa()
        sa, pa = s.st, s.path
        s.st, s.path = st0, and_(p0, not_(c))
        b = fb()
        if pa is FALSE:
            return b
        if s.path is FALSE:
            s.st, s.path = sa, pa
            return a
        s.st = s.merge(c, sa, s.st)
        s.path = or_(pa, s.path)
        if a is None or b is None:
            return a
        return ite(c, a, b)

    def ev_cast(s, e):
        ck = e["ck"]
        v = s.ev(e["e"])
        t = s.tyof(e)
        if ck == "Dynamic" and t.c == "ptr":
            return lift_any(lambda x: s.downcast(x, t.of), v)
        return s.cast(v, ck, t, e)

    def downcast(s, p, t):
        x = s.deref(p) if p.op in ("iter", "ref") else p
        cls = s.class_of(x)
        if cls is None:
            return p if p is lit(None) else s.unk("dynamic_cast")
        rec = s.findrec(cls.a[0])
        while rec is not None:
            if rec.d["s"] == t.s:
                return p
            bases = rec.d.get("bases", [])
            b = bases[0] if bases else None
            rec = s.P.rec(s.P.ty(rec.tu, b if isinstance(b, int) else b["t"])) if b is not None else None
        return lit(None)

    def cast(s, v, ck, t, e=None):
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return s.boolean(v)
        if v.unk and v.op == "app" and (v.sort == "v" or v.a[0].startswith("?")):
            return coerce(v, sort_of(t)) if v.sort == "v" else v
        if ck == "FloatingToIntegral":
            return trunc(v)
        if t.s == "float" and ck in ("FloatingCast", "IntegralToFloating"):
            return single(v)
        if ck in ("IntegralCast", "IntegralToFloating"):
            if v.sort == "b":
                return b2i(v)
            if t.c == "bool":
                return s.boolean(v)
            if e is not None and s.trapkinds and t.c == "int" and not t.signed and v.sort in ("i", "u"):
                f = s.tyof(e["e"])
                if f.c == "int" and f.signed:
                    s.trap("negative count", lt_(v, ZERO), e)
            c = cval(v)
            if c is not None and t.c == "int" and t.bits and ck == "IntegralCast":
                m = int(c) % (1 << t.bits)
                if t.signed and m >= 1 << (t.bits - 1):
                    m -= 1 << t.bits
                if t.bits == 64 and not t.signed and c < 0:
                    return NPOS if c == -1 else const(m)
                if t.bits == 64 and m == (1 << 64) - 1:
                    return NPOS
                return const(m)
            return v
        return v

    def ev_lam(s, e):
        caps = []
        for c in e["caps"]:
            if "this" in c or c.get("k") == "this" or c.get("n") is None and "id" not in c:
                caps.append(("this", s.fr.this))
            elif c.get("ref"):
                caps.append((c["id"], s.lv(c["init"])))
            else:
                caps.append((c["id"], mk("byval", s.copyval(s.ev(c["init"])))))
        key = (s.fr.tu, tuple(e["fs"]))
        if key not in s.clos:
            s.clos.append(key)
        r = mk("clo", s.clos.index(key), tuple((lit(i), v) for i, v in caps if v is not None))
        s.lamvals[s.tyof(e).s] = r
        return r

    def lv_lam(s, e):
        return s.newroot("lam", s.ev_lam(e))

    def ev_init(s, e):
        t = s.tyof(e)
        vals = e["a"]
        if t.c == "record":
            n = (t.n if isinstance(t.n, str) else "")
            if n in ("std::array",):
                inner = vals
                if len(vals) == 1 and vals[0]["k"] == "init":
                    inner = vals[0]["a"]
                ps = [selem(s.ev(x)) for x in inner]
                cnt = t.vals[0] if t.vals else len(ps)
                while len(ps) < cnt:
                    ps.append(selem(s.default(t.a[0])))
                return scat(ps)
            if n == "std::initializer_list":
                return scat([selem(s.ev(x)) for x in vals])
            if n.startswith("std::"):
                d = s.lib.default_value(s, n, t)
                if d is not None and not vals:
                    return d
            rec = s.P.rec(t)
            if rec is not None:
                fs = s.fields_of(rec)
                out = []
                for (k, tu, f, r), x in zip(fs, vals):
                    ft = s.P.ty(tu, f["t"])
                    out.append(s.lv(x) if ft.isref else s.ev(x))
                return s.aggregate(t, out)
        if t.c == "array":
            ps = [selem(s.ev(x)) for x in vals]
            return scat(ps)
        if len(vals) == 1:
            return s.ev(vals[0])
        if not vals:
            return s.default(t)
        return s.unk("init:" + t.s, e)

    def ev_throw(s, e):
        if e.get("e"):
            s.ev(e["e"])
        s.exit("throw")
        return lit(None)

    def ev_new(s, e):
        return s.unk("new", e)

    def ev_unk(s, e):
        if e.get("cls") in ("materialize", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXStdInitializerListExpr") and len(e.get("ch", [])) == 1:
            return s.ev(e["ch"][0])
        for c in e.get("ch", []):
            pass
        return s.unk("expr:" + str(e.get("cls")), e)

    def ev_call(s, e):
        return s.callexpr(e)

    ev_mcall = ev_call
    ev_ocall = ev_call

    def lv_call(s, e):
        return s.callexpr(e, want_ref=True)

    lv_mcall = lv_call
    lv_ocall = lv_call

    def copyval(s, v):
        """by-value copy: a copied random engine is a different engine"""
        if v.op == "gen":
            s.nroot += 1
            return mk("gen", app("gencopy", v.a[0]))
        return v

    def ev_ctor(s, e):
        fn = s.P.fn(s.fr.tu, e["f"]) if "f" in e else None
        t = s.tyof(e)
        args = e["a"]
        if fn is not None and (fn.d.get("copy") or fn.d.get("move")) and len(args) >= 1 and not fn.has_body:
            v = s.ev(args[0])
            if fn.d.get("copy") and args[0].get("lv"):
                v = s.copyval(v)
            return v
        if fn is not None and fn.has_body and fn.d.get("repo"):
            if (fn.d.get("copy") or fn.d.get("move")) and fn.d.get("defaulted"):
                return s.copyval(s.ev(args[0]))
            return s.construct(fn, t, s.bind_args(fn, args))
        n = (t.n if isinstance(t.n, str) else "")
        r = s.lib.construct(s, n, t, args, e)
        if r is not None:
            return r
        if fn is not None and fn.d.get("defaulted") or (fn is not None and fn.d.get("repo") and not args):
            if not args:
                return s.aggregate(t, [])
            if len(args) == 1:
                return s.ev(args[0])
        for a in args:
            s.ev(a)
        return s.unk("ctor:" + n, e)

    def lv_ctor(s, e):
        return s.newroot("tmp", s.ev_ctor(e))

    # ------------------------------------------------------------ calls
    def bind_args(s, fn, args):
        ps = fn.d.get("ps", [])
        out = []
        for i, a in enumerate(args):
            pt = s.P.ty(fn.tu, ps[i]) if i < len(ps) else None
            if pt is not None and pt.isref:
                out.append(s.lv(a))
            else:
                v = s.ev(a)
                if a.get("lv"):
                    v = s.copyval(v)
                out.append(v)
        return out

    def stripq(s, q):
        r = s._stripq.get(q)
        if r is None:
            r = strip_targs(q)
            s._stripq[q] = r
        return r

    def callexpr(s, e, want_ref=False):
        k = e["k"]
        fn = s.P.fn(s.fr.tu, e["f"]) if "f" in e and e["f"] is not None else None
        if fn is None:
            if "fe" in e:
                c = s.ev(e["fe"])
                args = [s.lv(a) for a in e["a"]]
                return s.retconv(s.apply(c, args, want_ref=True), want_ref)
            return s.unk("call", e)
        args = e["a"]
        static = fn.d.get("static")
        ismem = fn.d.get("cls") is not None and not static and fn.d.get("kind") != "ctor"
        q = s.stripq(fn.q)
        if k == "mcall":
            if e.get("arrow"):
                pv = s.ev(e["b"])
                this = s.deref(pv)
            else:
                this = s.lv(e["b"])
        elif k == "ocall" and ismem:
            op = e["op"]
            if op == "()" and fn.d.get("lambda"):
                cv_ = s.ev(args[0])
                rest = s.bind_args(fn, args[1:])
                return s.retconv(s.apply(cv_, rest, fn=fn, want_ref=True), want_ref, fn)
            this = s.lv(args[0])
            args = args[1:]
        else:
            this = None
        r = s.replacement(fn)
        if r is not None:
            vals = [s.lv(a) if a.get("lv") else s.ev(a) for a in args]
            if this is not None and s.wants_object(fn, r):
                vals = [this] + vals
            return s.retconv(s.apply(r, vals, want_ref=True), want_ref)
        if q in s.summarise:
            r = s.summarise[q](s, fn, this, args, e)
            if r is not None:
                return s.retconv_val(r, want_ref)
        if fn.d.get("repo") or q.startswith("vf::"):
            if q.startswith("vf::"):
                r = s.lib.intrinsic(s, q, fn, args, e)
                if r is not NotImplemented:
                    return s.retconv_val(r, want_ref)
            if fn.d.get("virt") and not e.get("qual") and this is not None:
                vals = s.bind_args(fn, args)
                return s.retconv(s.virtual(fn, this, vals, e), want_ref, fn)
            if fn.has_body or fn.d.get("defaulted"):
                if fn.d.get("copyasg") or fn.d.get("moveasg"):
                    if not fn.has_body or fn.d.get("defaulted"):
                        v = s.ev(args[0])
                        if fn.d.get("copyasg") and args[0].get("lv"):
                            v = s.copyval(v)
                        s.assign_record(this, v)
                        return this if want_ref else s.rd(this)
                vals = s.bind_args(fn, args)
                return s.retconv(s.call(fn, this, vals, e), want_ref, fn)
        r = s.lib.call(s, q, fn, this, args, e, want_ref)
        return r

    def assign_record(s, this, v):
        # reference members cannot be rebound
        s.wr(this, v)

    def retconv(s, r, want_ref, fn=None):
        """r = (value or reference, isref)"""
        v, isref = r
        if want_ref:
            return v if isref else s.newroot("ret", v)
        return s.rd(v) if isref else v

    def retconv_val(s, v, want_ref):
        return s.newroot("ret", v) if want_ref else v

    def virtual(s, fn, this, vals, e):
        if is_dd(this) and len({s.class_of(l) for l in dd_leaves(this)}) > 1:
            # objects of different classes: one after the other
            q = this.a[0]
            flags = []

            def go(x):
                r, f = s.virtual(fn, x, vals, e)
                flags.append(f)
                return lit(None) if r is None else r

            if this.op == "br":
                r = s.fork(br(q, FALSE, TRUE), lambda: go(this.a[2]), lambda: go(this.a[1]))
            else:
                r = s.fork(
                    rebuild(q, 3, [TRUE, FALSE, FALSE]),
                    lambda: go(this.a[1]),
                    lambda: s.fork(rebuild(q, 3, [FALSE, TRUE, FALSE]), lambda: go(this.a[2]), lambda: go(this.a[3])),
                )
            return r, flags[0]
        v = s._rd(this)
        if is_dd(v):
            # conditional object identity: only supported when all classes agree
            cl = {dict(l.a[0]).get("$cls") for l in dd_leaves(v) if l.op == "struct"}
            if len(cl) == 1:
                cls = cl.pop()
            else:
                cls = None
        else:
            cls = dict(v.a[0]).get("$cls") if v.op == "struct" else None
        if cls is None:
            return (s.unk("virtual:" + fn.q, e), False)
        rec = s.findrec(cls.a[0])
        target = s.overrider(rec, fn)
        if target is None or not (target.has_body or target.d.get("defaulted")):
            return (s.unk("virtual:" + fn.q, e), False)
        r = s.replacement(target)
        if r is not None:
            return s.apply(r, vals, want_ref=True)
        return s.call(target, this, vals, e)

    def class_of(s, this):
        if this.op != "ref":
            return None
        v = s._rd(this)
        return dict(v.a[0]).get("$cls") if v.op == "struct" else None

    def replacement(s, fn):
        """what runs instead of fn, if anything"""
        if not s.replaced and not s.replaced_within:
            return None
        for n in (fn.q, s.stripq(fn.q)):
            r = s.replaced.get(n)
            if r is None and n in s.replaced_within and any(f.fn is fn for f in s.frames):
                r = s.replaced_within[n]
            if r is not None:
                s.replacers_used.add(r)
                s.fits(fn, r)
                return r
        return None

    def wants_object(s, fn, r):
        """the stand-in's first parameter is the object itself"""
        if r.op != "clo" or fn.d.get("cls") is None:
            return False
        tu, fs = s.clos[r.a[0]]
        for f in fs:
            g = s.P.fn(tu, f)
            ps = g.d.get("ps", []) if g is not None else []
            if ps and s.P.ty(g.tu, ps[0]).isref and kind_of(s.P.ty(g.tu, ps[0])) == fn.q.rsplit("::", 1)[0].split("<")[0]:
                theirs = fn.d.get("ps", [])
                return not theirs or kind_of(s.P.ty(fn.tu, theirs[0])) != kind_of(s.P.ty(g.tu, ps[0]))
        return False

    def fits(s, fn, r):
        """the stand-in takes the arguments it is given"""
        if r.op != "clo":
            return
        tu, fs = s.clos[r.a[0]]
        for f in fs:
            g = s.P.fn(tu, f)
            if g is None or not g.has_body:
                continue
            mine, theirs = g.d.get("ps", []), fn.d.get("ps", [])
            if s.wants_object(fn, r):
                mine = mine[1:]
            if len(mine) <= len(theirs) and all(kind_of(s.P.ty(g.tu, a)) == kind_of(s.P.ty(fn.tu, b)) for a, b in zip(mine, theirs)):
                return
        raise Undecided("the parameters of " + fn.q + " are not the ones the harness knows")

    def findrec(s, name):
        for k, r in s.P.recs.items():
            if r.d["s"] == name:
                return r
        return None

    def overrider(s, rec, fn):
        seen = set()
        while rec is not None:
            for m in rec.d.get("methods", []):
                g = s.P.fn(rec.tu, m["f"])
                if g is None:
                    continue
                if g is fn or s._overrides(rec, m, g, fn):
                    return g
            nxt = None
            for b in rec.d.get("bases", []):
                bt = s.P.ty(rec.tu, b if isinstance(b, int) else b["t"])
                nxt = s.P.rec(bt)
            rec = nxt
        return fn

    def _overrides(s, rec, m, g, fn, depth=0):
        for o in m.get("over", []):
            h = s.P.fn(rec.tu, o)
            if h is fn:
                return True
            if h is not None and depth < 6 and h.d.get("n") == fn.d.get("n"):
                # find h's own record entry
                for r2 in s.P.recs.values():
                    for m2 in r2.d.get("methods", []):
                        if s.P.fn(r2.tu, m2["f"]) is h and s._overrides(r2, m2, h, fn, depth + 1):
                            return True
        return False

    def apply(s, c, args, fn=None, want_ref=False):
        """call a callable value; args are references or values"""
        if is_dd(c):
            return (s.unk("callcond"), False)
        if c.op == "clo":
            tu, fs = s.clos[c.a[0]]
            cands = [s.P.fn(tu, f) for f in fs]
            cands = [f for f in cands if f is not None and f.has_body]
            if fn is None or fn not in cands:
                cands = [f for f in cands if len(f.d.get("params", [])) == len(args)] or [f for f in cands if len(f.d.get("params", [])) < len(args)] or cands
                if not cands:
                    return (s.unk("emptylambda"), False)
                fn2 = fn if fn is not None and fn.has_body else cands[0]
            else:
                fn2 = fn
            caps = {k.a[0]: v for k, v in c.a[1]}
            vals = []
            for p, a in zip(fn2.d.get("ps", []), args):
                pt = s.P.ty(fn2.tu, p)
                if pt.isref:
                    vals.append(a if a.op in ("ref",) or (is_dd(a) and all(l.op == "ref" for l in dd_leaves(a))) else s.newroot("arg", a))
                else:
                    vals.append(s._rd(a) if a.op == "ref" else a)
            this = caps.get("this")
            return s.call(fn2, this, vals, None, caps=caps)
        if c.op == "fnv":
            fn2 = s.P.fns[c.a[0]]
            if fn2.has_body:
                return s.call(fn2, None, args, None)
        if c.op == "struct":
            # function object
            cls = dict(c.a[0]).get("$cls")
            rec = s.findrec(cls.a[0]) if cls is not None else None
            if rec is not None:
                for m in rec.d.get("methods", []):
                    g = s.P.fn(rec.tu, m["f"])
                    if g is not None and g.d.get("n") == "operator()" and g.has_body:
                        return s.call(g, s.newroot("fobj", c), args, None)
        if c.op == "stdop":
            xs = [s._rd(a) if a.op == "ref" else a for a in args]
            return (s.arith(c.a[0], xs[0], xs[1], TYINT), False)
        return (s.unk("apply:" + c.op), False)

    def call(s, fn, this, vals, e, caps=None):
        """inline a function; returns (value, isref)"""
        if not fn.has_body:
            if fn.q.startswith("spec::"):
                raise Undecided("a harness does not fit the code's interface any more")
            return (s.unk("nobody:" + fn.q, e), False)
        if sum(1 for f in s.frames if f.fn is fn) > 2 or len(s.frames) > 60:
            s.havoc_args(this, vals)
            return (s.unk("recursion:" + fn.q, e), False)
        s.visited[fn.m] = fn
        fr = Frame(fn, fn.tu, this)
        rt = s.P.ty(fn.tu, fn.d["rt"]) if fn.d.get("rt") is not None else None
        fr.retref = bool(rt is not None and rt.isref)
        if caps:
            for k, v in caps.items():
                if k == "this":
                    fr.this = v
                elif v.op == "byval":
                    fr.env[k] = s.newroot("cap", v.a[0])
                else:
                    fr.env[k] = v
        for p, v in zip(fn.d.get("params", []), vals):
            pt = s.P.ty(fn.tu, p["t"])
            if pt.isref:
                fr.env[p["id"]] = v
            else:
                fr.env[p["id"]] = s.newroot("p." + str(p.get("n")), v)
        for p in fn.d.get("params", [])[len(vals) :]:
            if p.get("init") is not None:
                pt = s.P.ty(fn.tu, p["t"])
                v = s.with_tu(fn.tu, lambda: s.ev(p["init"]))
                fr.env[p["id"]] = v if pt.isref and v.op == "ref" else s.newroot("p", v)
            else:
                fr.env[p["id"]] = s.newroot("p", s.unk("missingarg"))
        saved, p0, k0 = s.fr, s.path, len(s.trapped)
        s.frames.append(fr)
        s.fr, s.path = fr, TRUE
        s.pstack.append(p0)
        try:
            if fn.d.get("kind") == "ctor":
                s.ctor_inits(fn, this)
            s.exec(fn.d["body"])
            v = s.finish(fr)
        finally:
            s.frames.pop()
            s.pstack.pop()
            s.fr = saved
        s.trapped_under(k0, lambda c: and_(p0, c))
        callee = s.path
        thrown = FALSE
        if saved is None:
            s.top_exits = fr.exits
        for c, st, kind, val in fr.exits:
            if kind in ("throw", "assume"):
                if saved is not None:
                    saved.exits.append((and_(p0, c), st, kind, val))
                thrown = or_(thrown, c)
        s.path = and_(p0, not_(thrown))
        return (v if v is not None else lit(None), fr.retref)

    def finish(s, fr):
        """merge the return exits of the frame into the current state"""
        rets = [x for x in fr.exits if x[2] == "ret"]
        v = None
        if not rets:
            s.close_streams(fr)
            return v
        st = s.st if s.path is not FALSE else None
        for c, xst, kind, val in reversed(rets):
            if st is None:
                st, v = xst, val
            else:
                st = s.merge(c, xst, st)
                if val is not None:
                    v = ite(c, val, v) if v is not None else val
        s.st = st
        s.close_streams(fr)
        return v

    def close_streams(s, fr):
        for r in fr.streams:
            s.lib.close_stream(s, r)

    def havoc_args(s, this, vals):
        for r in [this] + list(vals):
            if r is not None and r.op == "ref":
                s.wr(r, s.unk("havoc"))

    def construct(s, fn, t, vals):
        rec = s.P.rec(t)
        d = {"$cls": lit(rec.d["s"] if rec else t.s)}
        if rec is not None:
            for k, tu, f, r in s.fields_of(rec):
                ft = s.P.ty(tu, f["t"])
                d[k] = mk("uninitialised") if ft.isref else s.default(ft, zero=False) if ft.c in ("int", "float", "bool", "enum", "ptr") else mk("uninitialised")
        this = s.newroot("obj", struct(d))
        s.call(fn, this, vals, None)
        return s._rd(this)

    def ctor_inits(s, fn, this):
        for it in fn.d.get("inits", []) or []:
            e = it["e"]
            if "deleg" in it:
                v = s.ev(e)
                old = s._rd(this)
                s.wr(this, v)
            elif "base" in it:
                bv_ = s.ev(e)
                if bv_.op == "struct":
                    cur = s._rd(this)
                    d = dict(cur.a[0])
                    for k, v in bv_.a[0]:
                        if k != "$cls":
                            d[k] = v
                    s.wr(this, struct(d))
                    s.rebind_self(bv_, this)
                else:
                    s.unk("base:" + fn.q)
            else:
                n = it["field"]
                rec = None
                if fn.d.get("cls") is not None:
                    rec = s.P.rec(s.P.ty(fn.tu, fn.d["cls"]))
                ft = None
                if rec is not None:
                    for k, tu, f, r in s.fields_of(rec):
                        if f["n"] == n and r is rec:
                            ft = s.P.ty(tu, f["t"])
                            key = k
                if ft is None:
                    continue
                if ft.isref:
                    s.wr(refx(this, F(key)), s.lv(e))
                else:
                    s.wr(refx(this, F(key)), s.init_value(e, ft))

    def rebind_self(s, v, this):
        pass

    def init_value(s, e, ty):
        if e["k"] == "init" and not e["a"]:
            return s.default(ty)
        v = s.ev(e)
        if e.get("lv"):
            v = s.copyval(v)
        if ty.c == "array" and e["k"] == "str":
            return v
        return v

    # ------------------------------------------------------------ statements
    def exec(s, n):
        if n is None or s.path is FALSE:
            return
        getattr(s, "st_" + n["k"], s.st_unknown)(n)

    def st_unknown(s, n):
        s.unk("stmt:" + n["k"], n)
        for k in list(s.st):
            if not k.startswith("$") and not k.startswith("g:"):
                s.st[k] = s.unk("stmt")

    def st_block(s, n):
        for x in n["s"]:
            s.exec(x)

    def st_nop(s, n):
        pass

    def st_expr(s, n):
        e = n["e"]
        if e.get("lv"):
            s.lv(e)
        elif e["k"] in ("call", "mcall", "ocall"):
            s.callexpr(e, want_ref=False) if not e.get("lv") else s.lv(e)
        else:
            s.ev(e)

    def st_decl(s, n):
        for d in n["d"]:
            s.declare(d)

    def declare(s, d):
        t = s.ty(d["t"])
        if "bind" in d and d["bind"]:
            init = d.get("init")
            r = s.lv(init) if t.isref else s.newroot("sb", s.ev(init))
            for i, b in enumerate(d["bind"]):
                s.bindvar(b, r, i, t)
            return
        init = d.get("init")
        if d.get("static"):
            key = "static:" + str(d["id"]) + ":" + str(s.fr.tu)
            if key not in s.st:
                s.st[key] = s.init_value(init, t) if init is not None else s.default(t)
            s.fr.env[d["id"]] = ref(key)
            return
        if t.isref:
            s.fr.env[d["id"]] = s.lv(init)
            return
        if init is None:
            v = s.default(t, zero=False)
        else:
            v = s.init_value(init, t)
        r = s.newroot(d["n"], v)
        s.fr.env[d["id"]] = r
        if t.c == "record" and ((t.n if isinstance(t.n, str) else "")) in ("std::basic_fstream", "std::basic_ofstream"):
            s.fr.streams.append(r)

    def bindvar(s, b, r, i, t):
        u = t
        while u.isref:
            u = u.of
        n = (u.n if isinstance(u.n, str) else "")
        if n in ("std::pair",):
            s.fr.env[b["id"]] = refx(r, F("first" if i == 0 else "second"))
        elif n == "std::array" or u.c == "array":
            s.fr.env[b["id"]] = refx(r, I(const(i)))
        else:
            rec = s.P.rec(u)
            if n == "std::tuple":
                s.fr.env[b["id"]] = refx(r, F(f"_{i}"))
            elif rec is not None:
                fs = s.fields_of(rec)
                s.fr.env[b["id"]] = refx(r, F(fs[i][0]))
            else:
                s.fr.env[b["id"]] = s.newroot("sb", s.unk("binding"))
        if b.get("hid") is not None:
            s.fr.env[b["hid"]] = s.fr.env[b["id"]]

    def st_if(s, n):
        if n.get("init"):
            s.exec(n["init"])
        if n.get("cv"):
            s.declare(n["cv"])
        c = s.boolean(s.ev(n["c"])) if n.get("c") is not None else s.boolean(s.rd(s.fr.env[n["cv"]["id"]]))
        if n.get("constexpr"):
            if c is TRUE:
                s.exec(n["a"])
            elif c is FALSE:
                s.exec(n.get("b"))
            else:
                s.unk("constexpr-if", n)
            return
        if c is TRUE:
            return s.exec(n["a"])
        if c is FALSE:
            return s.exec(n.get("b"))
        s.fork(c, lambda: s.exec(n["a"]), lambda: s.exec(n.get("b")))

    def st_ret(s, n):
        e = n.get("e")
        v = None
        if e is not None:
            if s.fr.retref:
                v = s.lv(e)
            else:
                rt = s.P.ty(s.fr.fn.tu, s.fr.fn.d["rt"])
                v = s.ev(e) if rt.c != "void" else (s.st_expr({"e": e}) or None)
                if v is not None:
                    v = coerce(v, sort_of(rt))
        s.exit("ret", TRUE, v)

    def st_break(s, n):
        s.exit("break")

    def st_continue(s, n):
        s.exit("continue")

    def st_switch(s, n):
        if n.get("init"):
            s.exec(n["init"])
        v = s.ev(n["c"])
        body = n["body"]
        items = body["s"] if body["k"] == "block" else [body]
        # flatten case labels
        flat = []

        def lab(x):
            if x["k"] == "case":
                flat.append(("case", x["e"]))
                lab(x["s"])
            elif x["k"] == "default":
                flat.append(("default", None))
                lab(x["s"])
            else:
                flat.append(("s", x))

        for x in items:
            lab(x)
        anycase = FALSE
        conds = {}
        for i, (k, x) in enumerate(flat):
            if k == "case":
                conds[i] = and_(s.compare("==", v, s.ev(x)), not_(anycase))
                anycase = or_(anycase, conds[i])
        for i, (k, x) in enumerate(flat):
            if k == "default":
                conds[i] = not_(anycase)
        # execute with fallthrough: entered accumulates
        saved = s.fr.exits
        s.fr.exits = []
        p0, k0 = s.path, len(s.trapped)
        s.path = TRUE
        st0 = dict(s.st)
        entered = FALSE
        live = FALSE
        ex = []
        for i, (k, x) in enumerate(flat):
            if i in conds:
                c = conds[i]
                # join of fallthrough and entry
                s.st = s.merge(c, {**s.st, **{r: st0[r] for r in st0}}, s.st) if live is not FALSE else dict(st0)
                live = or_(live, c)
            elif live is not FALSE:
                s.path = live
                s.exec(x)
                live = s.path
        after = s.st
        alive = live
        none = not_(FALSE)
        for c in conds.values():
            none = and_(none, not_(c))
        st = s.merge(none, st0, after)
        total = or_(alive, none)
        keep = []
        for c, xst, kind, val in s.fr.exits:
            if kind == "break":
                st = s.merge(c, xst, st)
                total = or_(total, c)
            else:
                keep.append((and_(p0, c), xst, kind, val))
        s.fr.exits = saved + keep
        s.trapped_under(k0, lambda c: and_(p0, c))
        s.st = st
        s.path = and_(p0, total)

    def st_try(s, n):
        saved = s.fr.exits
        s.fr.exits = []
        p0, k0 = s.path, len(s.trapped)
        s.path = TRUE
        s.exec(n["body"])
        s.trapped_under(k0, lambda c: and_(p0, c))
        ex = s.fr.exits
        thrown = [x for x in ex if x[2] == "throw"]
        s.fr.exits = saved + [(and_(p0, c), st, k, v) for c, st, k, v in ex if k != "throw"]
        if not thrown:
            s.path = and_(p0, s.path)
            return
        body_st, body_path = s.st, s.path
        tc = FALSE
        st = None
        for c, xst, k, v in reversed(thrown):
            st = xst if st is None else s.merge(c, xst, st)
            tc = or_(tc, c)
        s.st = dict(st)
        s.path = TRUE
        h = n["h"][0] if n.get("h") else None
        sub_saved = s.fr.exits
        s.fr.exits = []
        k0 = len(s.trapped)
        if h is not None:
            if h.get("v"):
                s.fr.env[h["v"]["id"]] = s.newroot("exc", app("exception"))
            s.exec(h["body"])
        s.trapped_under(k0, lambda c: and_(p0, and_(tc, c)))
        for c, xst, k, v in s.fr.exits:
            sub_saved.append((and_(p0, and_(tc, c)), xst, k, v))
        s.fr.exits = sub_saved
        hst, hpath = s.st, and_(tc, s.path)
        if hpath is FALSE:
            s.st, s.path = body_st, and_(p0, body_path)
        elif body_path is FALSE:
            s.st, s.path = hst, and_(p0, hpath)
        else:
            s.st = s.merge(tc, hst, body_st)
            s.path = and_(p0, or_(hpath, body_path))

    # ------------------------------------------------------------ loops
    def st_for(s, n):
        if n.get("init"):
            s.exec(n["init"])
        head = (lambda: s.boolean(s.ev(n["c"]))) if n.get("c") else None
        inc = (lambda: s.st_expr({"e": n["inc"]})) if n.get("inc") else None
        s.loop(head, lambda: s.exec(n["body"]), inc, n)

    def st_while(s, n):
        def head():
            if n.get("cv"):
                s.declare(n["cv"])
            return s.boolean(s.ev(n["c"]))

        s.loop(head, lambda: s.exec(n["body"]), None, n)

    def st_do(s, n):
        def body():
            s.exec(n["body"])

        def tail():
            c = s.boolean(s.ev(n["c"]))
            s.exit("break", not_(c))

        s.loop(None, body, tail, n)

    def st_rfor(s, n):
        if n.get("init"):
            s.exec(n["init"])
        r = n["r"]
        rt = s.tyof(r)
        while rt.isref:
            rt = rt.of
        nm = (rt.n if isinstance(rt.n, str) else "")
        if nm == "std::span":
            sp = s.ev(r)
            base, cnt = s.lib.span_parts(s, sp)
        elif nm in ("std::vector", "std::array", "std::initializer_list") or rt.c == "array":
            if r.get("lv"):
                rr = s.lv(r)
            else:
                rr = s.newroot("range", s.ev(r))
            base, cnt = mk("iter", rr, ZERO), slen_any(s._rd(rr))
        elif nm == "toml::array":
            whole = s.lv(r) if r.get("lv") else s.newroot("range", s.ev(r))
            base, cnt = None, s.lib.toml_length(s._rd(whole))
        else:
            s.unk("range:" + nm, n)
            s.havoc_loop(n)
            return
        d = n["v"]
        vt = s.ty(d["t"])
        idx = s.newroot("rng", ZERO)

        def head():
            return lt_(s._rd(idx), cnt)

        def body():
            if base is None:
                el = s.newroot("el", s.lib.toml_element(s._rd(whole), s._rd(idx)))
            else:
                el = s.deref(s.ptradd(base, s._rd(idx)))
            if d.get("bind"):
                rr = el if vt.isref else s.newroot("el", s.rd(el))
                for i, b in enumerate(d["bind"]):
                    s.bindvar(b, rr, i, vt)
            elif vt.isref:
                s.fr.env[d["id"]] = el
            else:
                s.fr.env[d["id"]] = s.newroot(d["n"], s.rd(el, vt))
            s.exec(n["body"])

        def inc():
            s.wr(idx, add(s._rd(idx), ONE))

        few = cval(cnt) if not is_dd(cnt) else None
        if few is not None and few <= 8:
            s.unrolled(int(few), lambda i: (s.wr(idx, const(i)), body()))
            return
        s.loop(head, body, inc, n)

    def unrolled(s, count, step):
        """a loop of a few known rounds, one round after the other"""
        saved, p0, k0, env0 = s.fr.exits, s.path, len(s.trapped), dict(s.fr.env)
        s.pstack.append(p0)
        s.fr.exits, s.path = [], TRUE
        for i in range(count):
            if s.path is FALSE:
                break
            s.fr.env = dict(env0)
            step(i)
            s.join_continue()
        s.fr.env = env0
        st, total, keep = s.st, s.path, []
        for c, xst, kind, val in s.fr.exits:
            if kind == "break":
                st, total = (dict(xst), c) if total is FALSE else (s.merge(c, xst, st), or_(total, c))
            else:
                keep.append((and_(p0, c), xst, kind, val))
        s.fr.exits = saved + keep
        s.trapped_under(k0, lambda c: and_(p0, c))
        s.pstack.pop()
        s.st, s.path = st, and_(p0, total)

    def havoc_loop(s, n):
        for k in list(s.st):
            if not k.startswith("g:") and k != "$files":
                s.st[k] = s.unk("havocloop")

    # leaves -----------------------------------------------------
    def diff(s, S, E, path, out):
        if S is E:
            return
        if S.op == "struct" and E.op == "struct":
            da, db = dict(S.a[0]), dict(E.a[0])
            if da.keys() == db.keys():
                for k in da:
                    s.diff(da[k], db[k], path + (("f", k),), out)
                return
        if S.op == "iter" and E.op == "iter" and S.a[0] is E.a[0]:
            s.diff(S.a[1], E.a[1], path + (("o",),), out)
            return
        if (is_seq(S) or is_seq(E)) and (is_seq(S) or S.op != "app"):
            A, B = as_seq(S), as_seq(E)
            if A.op == "scat" and B.op == "scat" and len(A.a) == len(B.a) and all(p.op == "selem" and not _texty(p) for p in A.a + B.a) and len(A.a) > 1:
                for i, (x, y) in enumerate(zip(A.a, B.a)):
                    s.diff(x.a[0], y.a[0], path + (("e", i),), out)
                return
            if A.op == "scat" and B.op == "scat" and len(A.a) == len(B.a) and all(same_part(p, q) for p, q in zip(A.a, B.a)):
                for i, (x, y) in enumerate(zip(A.a, B.a)):
                    if x is not y:
                        if x.op == "sif":
                            x, y = x.a[1], y.a[1]
                        if x.op == "selem" and y.op == "selem" and not _texty(x) and not _texty(y):
                            s.diff(x.a[0], y.a[0], path + (("p", i), ("x",)), out)
                        else:
                            s.diff(x, y, path + (("p", i),), out)
                return
            A1 = pointwise(A) if not (A.op == "sopq" and _textish(A)) else A
            B1 = pointwise(B) if not (B.op == "sopq" and _textish(B)) else B
            if A1.op == "sfor" and B1.op == "sfor" and A1.a[0] is B1.a[0] and A.op != "scv":
                x = fresh("d")
                set_range(x, A1.a[0])
                a, b = A1.a[1], B1.a[1]
                if a.op == "selem" and b.op == "selem":
                    s.diff_closed(a.a[0], b.a[0], A1.h, B1.h, x, path + (("*",),), out)
                    return
                a, b = open_bv(A1.a[1], A1.h, x), open_bv(B1.a[1], B1.h, x)
                if a.op == "selem" and b.op == "selem":
                    s.diff(a.a[0], b.a[0], path + (("*",),), out)
                    return
            out.append((path, "seq", None))
            return
        out.append((path, "seq" if is_seq(S) else "val", S))

    def diff_closed(s, a, b, ha, hb, x, path, out):
        if ha == hb and a is b:
            return
        if a.op == "struct" and b.op == "struct":
            da, db = dict(a.a[0]), dict(b.a[0])
            if da.keys() == db.keys():
                for k in da:
                    s.diff_closed(da[k], db[k], ha, hb, x, path + (("f", k),), out)
                return
        s.diff(open_bv(a, ha, x), open_bv(b, hb, x), path, out)

    def leaf_get(s, v, path, xs):
        """value of the leaf at index symbols xs"""
        xs = list(xs)
        path = list(path)
        while path:
            p = path.pop(0)
            if p[0] == "*" and v.op == "sfor":
                ns = []
                while path and path[0][0] == "f":
                    ns.append(path.pop(0)[1])
                v = at_fields(v, xs.pop(0), ns)
            elif p[0] == "f":
                v = field(v, p[1])
            elif p[0] == "o":
                v = v.a[1] if v.op == "iter" else app("?off", v)
            elif p[0] == "e":
                v = at_any(v, const(p[1]))
            elif p[0] == "p":
                v = _inner(v.a[p[1]])
            elif p[0] == "x":
                v = v.a[0]
            else:
                v = at_any(v, xs.pop(0))
        return v

    def leaf_set(s, v, path, fn, xs=()):
        """replace the leaf by fn(old, xs)"""
        if not path:
            return fn(v, xs)
        p = path[0]
        if p[0] == "f":
            return setfield(v, p[1], s.leaf_set(field(v, p[1]), path[1:], fn, xs))
        if p[0] == "o":
            return mk("iter", v.a[0], s.leaf_set(v.a[1], path[1:], fn, xs))
        if p[0] == "e":
            ps = list(v.a)
            ps[p[1]] = selem(s.leaf_set(ps[p[1]].a[0], path[1:], fn, xs))
            return scat(ps)
        if p[0] == "p":
            ps = list(v.a)
            q = ps[p[1]]
            w = s.leaf_set(_inner(q), path[1:], fn, xs)
            ps[p[1]] = sif(q.a[0], w) if q.op == "sif" else w
            return scat(ps)
        if p[0] == "x":
            return selem(s.leaf_set(v.a[0], path[1:], fn, xs))
        v = pointwise(as_seq(v))
        x = fresh("l")
        set_range(x, v.a[0] if not is_dd(v.a[0]) else None)
        b = open_bv(v.a[1], v.h, x)
        return mk_sfor(v.a[0], x, selem(s.leaf_set(b.a[0], path[1:], fn, xs + (x,))))

    def leaf_syms(s, v, path):
        """fresh index symbols with their ranges"""
        xs = []
        stars = sum(1 for p in path if p[0] == "*")
        path = list(path)
        while len(xs) < stars:
            p = path.pop(0)
            if p[0] == "f":
                v = field(v, p[1])
            elif p[0] == "o":
                v = v.a[1]
            elif p[0] == "e":
                v = at_any(v, const(p[1]))
            elif p[0] == "p":
                v = _inner(v.a[p[1]])
            elif p[0] == "x":
                v = v.a[0]
            else:
                v = pointwise(as_seq(v))
                x = fresh("k")
                set_range(x, v.a[0] if not is_dd(v.a[0]) else None)
                xs.append(x)
                if len(xs) == stars:
                    break
                if v.a[1].op == "selem":
                    ns = []
                    while path and path[0][0] == "f":
                        ns.append(path.pop(0)[1])
                    v = at_fields(v, x, ns)
                else:
                    v = open_bv(v.a[1], v.h, x).a[0]
        return xs

    def loop(s, head, body, inc, node):
        st0 = dict(s.st)
        p0 = s.path
        syms0 = s.loopsyms
        exits0 = s.fr.exits
        env0 = dict(s.fr.env)
        s.pstack.append(p0)
        leaves = {}
        closed = {}
        Tn = None
        stable = False
        k0 = len(s.trapped)
        for rnd in range(16):
            del s.trapped[k0:]
            b = fresh("b", sort="u")
            if Tn is not None and not is_dd(Tn):
                set_range(b, Tn)
            s.st = s.loop_start(st0, leaves, closed, b)
            start = s.st
            s.st = dict(s.st)
            s.path = TRUE
            s.loopsyms = syms0 + (b,)
            s.fr.exits = []
            s.fr.env = dict(env0)
            c = head() if head else TRUE
            kb = len(s.trapped)
            hexits = s.fr.exits
            s.path = TRUE
            if c is not FALSE:
                body()
                s.join_continue()
                if inc and s.path is not FALSE:
                    inc()
            E, Epath, exits = s.st, s.path, s.fr.exits
            ords1 = s.ord_join([E] + [x[1] for x in s.fr.exits], st0)
            new = False
            for root, v in start.items():
                w = E.get(root)
                if w is None or w is v or root.startswith("$o"):
                    continue
                out = []
                s.diff(v, w, (), out)
                for path, kind, old in out:
                    if s.add_leaf(leaves, root, path, kind, st0):
                        new = True
            for lf in leaves.values():
                if lf.kind != "seq" and s.widen(lf, E):
                    new = True
            # locations changed only on the way out do not recur
            if new:
                closed = {}
                Tn = None
                continue
            changed = False
            for lf in leaves.values():
                if lf.name in closed:
                    continue
                f = s.simple_closed(lf, st0, E, b)
                if f:
                    closed[lf.name] = f
                    changed = True
            if Tn is None and not any(isinstance(x, str) for x in c.fs):
                t = s.trip(c, b)
                if t is not None:
                    Tn = t
                    changed = True
            if not changed:
                stable = True
                break
        s.fr.exits = exits0
        s.loopsyms = syms0
        s.fr.env = env0
        s.path = p0
        s.pstack.pop()
        if not stable:
            s.unk("loop-unstable", node)
            s.st = dict(st0)
            for lf in leaves.values():
                s.st[lf.root] = s.unk("loop")
            return
        s.loops.append((s.P.loc(s.fr.fn, node.get("l")) if s.fr.fn else "?", len(leaves)))
        # ---- full solution
        starts = s.solve(leaves, closed, st0, E, b, Tn, and_(c, Epath))
        fns = {}
        for lf in leaves.values():
            f = starts[lf.name]
            fns[lf.name] = lambda bb, *xs, f=f: f(bb, list(xs))

        def clo(t):
            return subst_cv(t, fns)

        c = clo(c)
        if Tn is None:
            Tn = s.trip(c, b)
        normal = dict(st0)
        normal.update(ords1)
        for lf in leaves.values():
            f = starts[lf.name]
            normal[lf.root] = s.leaf_set(normal[lf.root], lf.path, lambda old, xs, f=f: f(Tn, list(xs)))
        if len(s.trapped) > k0:
            b3, b4 = fresh("b", sort="u"), fresh("b", sort="u")
            stop = FALSE
            for cond, _st, _k, _v in exits:
                stop = or_(stop, subst(clo(cond), {b: b4}))
            turns = Tn
            if stop is not FALSE and is_endless(Tn):
                # it ends where it is left
                turns, stop = add(ONE, first_(stop, b4, None)), FALSE
            else:
                set_range(b4, b3)
                stop = any_(b3, b4, stop)
            if not is_dd(turns):
                set_range(b3, turns)
            new = []
            for i, (l, t) in enumerate(s.trapped[k0:]):
                # in the head once more than in the body
                t = t if k0 + i < kb else and_(c, clo(t))
                t = and_(not_(stop), subst(clo(t), {b: b3}))
                t = any_(turns if k0 + i >= kb or turns is not Tn else add(Tn, ONE), b3, prune(t))
                new.append((l, and_(p0, t)))
            s.trapped[k0:] = [(l, t) for l, t in new if t is not FALSE]
        # roots created inside survive as unknown
        if not exits:
            s.st = normal
            return
        b2 = fresh("b", sort="u")
        if not is_dd(Tn):
            set_range(b2, Tn)
        ex = []
        tot = FALSE
        for cond, st, kind, val in exits:
            cond = subst(clo(cond), {b: b2})
            ex.append((cond, st, kind, val))
            tot = or_(tot, cond)
        found = TRUE if is_endless(Tn) and tot is not FALSE else any_(Tn, b2, tot)
        if found is FALSE:
            s.st = normal
            return
        first = first_(tot, b2, Tn)

        def at_first(t):
            return subst(clo(t), {b: first})

        cur = normal
        leave = FALSE
        for cond, st, kind, val in ex:
            if len(ex) == 1:
                cc = found
            else:
                cc = and_(found, subst(cond, {b2: first}))
            snap = {}
            for r, v in st.items():
                base = start.get(r)
                if base is v and r in normal and r not in {lf.root for lf in leaves.values()}:
                    snap[r] = normal[r]
                else:
                    snap[r] = at_first(v)
            if kind == "break":
                cur = s.merge(cc, snap, cur)
                for r, v in snap.items():
                    cur.setdefault(r, v)
            else:
                s.fr.exits.append((and_(p0, cc), snap, kind, at_first(val) if val is not None else None))
                leave = or_(leave, cc)
        s.st = cur
        s.path = and_(p0, not_(leave))

    def ord_join(s, states, st0):
        """draw counters after a loop: the loop counts as the largest number of draws one iteration makes"""
        out = {}
        for st in states:
            for k, v in st.items():
                if not k.startswith("$o"):
                    continue
                base = st0.get(k, ZERO)
                hi = max([int(cval(x) or 0) for x in dd_leaves(sub(v, base))] or [0])
                out[k] = max(out.get(k, 0), hi)
        return {k: add(st0.get(k, ZERO), const(h)) for k, h in out.items()}

    def join_continue(s):
        keep = []
        for c, st, kind, val in s.fr.exits:
            if kind == "continue":
                if s.path is FALSE:
                    s.st, s.path = dict(st), c
                else:
                    s.st = s.merge(c, st, s.st)
                    s.path = or_(s.path, c)
            else:
                keep.append((c, st, kind, val))
        s.fr.exits = keep

    def add_leaf(s, leaves, root, path, kind, st0):
        for (r, p) in list(leaves):
            if r == root and len(p) <= len(path) and path[: len(p)] == p:
                return False  # already carried at or above this place
        for (r, p) in list(leaves):
            if r == root and p[: len(path)] == path:
                del leaves[(r, p)]
        lf = Leaf()
        lf.root, lf.path, lf.kind = root, path, kind
        s.nroot += 1
        lf.name = f"L{s.nroot}"
        xs = s.leaf_syms(st0[root], path)
        init = s.leaf_get(st0[root], path, xs)
        lf.sort = init.sort if init.sort != "lit" else "v"
        if is_seq(init):
            lf.kind = "seq"
            lf.sort = elem_sort(init) or "v"
        elif kind == "seq":
            lf.kind = "val"
        leaves[(root, path)] = lf
        return True

    def widen(s, lf, E):
        """the carried value is real when any iteration makes it so"""
        try:
            v = s.leaf_get(E[lf.root], lf.path, s.leaf_syms(E[lf.root], lf.path))
        except Exception:
            return False
        so = v.sort
        if so == lf.sort or lf.sort == "v" or so not in ("i", "u", "r"):
            return False
        if so == "r" and lf.sort in ("i", "u") or so == "i" and lf.sort == "u" and not is_nonneg(v):
            lf.sort = so
            return True
        return False

    def carry(s, lf, b, xs):
        if lf.kind == "seq":
            return mk("scv", lf.name, b, *xs, sort=lf.sort)
        return mk("cv", lf.name, b, *xs, sort=lf.sort if lf.sort != "u" else "u")

    def loop_start(s, st0, leaves, closed, b):
        st = dict(st0)
        for lf in leaves.values():
            if lf.name in closed:
                f = closed[lf.name]
                st[lf.root] = s.leaf_set(st[lf.root], lf.path, lambda old, xs: f(b, list(xs)))
            else:
                st[lf.root] = s.leaf_set(st[lf.root], lf.path, lambda old, xs: s.carry(lf, b, xs))
        return st

    def simple_closed(s, lf, st0, E, b):
        if lf.kind == "seq" or lf.sort not in ("i", "u", "r"):
            return None
        xs = s.leaf_syms(st0[lf.root], lf.path)
        N = s.leaf_get(E[lf.root], lf.path, xs)
        me = s.carry(lf, b, xs)
        if N.sort not in ("i", "u", "r"):
            return None
        d = sub(N, me)
        if is_dd(d) or any(isinstance(x, str) for x in d.fs) or dep(d, b) or d.unk:
            return None

        def f(bb, ys, lf=lf, d=d, xs=xs):
            init = s.leaf_get(st0[lf.root], lf.path, ys)
            return add(init, mul(bb, subst(d, dict(zip(xs, ys)))))

        return f

    def trip(s, c, b):
        """number of iterations: least b with not c(b)"""
        r = trip_(c, b)
        if r is None:
            return first_(not_(c), b, None)
        return r

    def solve(s, leaves, closed, st0, E, b, Tn, care=TRUE):
        starts = dict(closed)
        pend = {}
        for lf in leaves.values():
            if lf.name in starts:
                continue
            xs = s.leaf_syms(st0[lf.root], lf.path)
            N = s.leaf_get(E[lf.root], lf.path, xs)
            init = s.leaf_get(st0[lf.root], lf.path, xs)
            if lf.kind == "seq":
                N, init = as_seq(N), as_seq(init)
            pend[lf.name] = [lf, xs, init, N]
        s.solve_deltas(pend, starts, b)
        names = set(pend)
        progress = True
        while pend and progress:
            progress = False
            for name in sorted(pend, key=lambda x: (len(x), x)):
                lf, xs, init, N = pend[name]
                others = {x for x in N.fs if isinstance(x, str) and x in names and x != name}
                if others:
                    continue
                f = s.solve_one(lf, xs, init, N, b, Tn)
                if f is None:
                    continue
                starts[name] = f
                names.discard(name)
                del pend[name]
                progress = True
                for o in pend.values():
                    if name in o[3].fs:
                        o[3] = subst_cv(o[3], {name: lambda bb, *ys, f=f: f(bb, list(ys))})
                break
            if pend and not progress and care is not TRUE:
                # what an iteration does matters only where there is one and it does not leave the loop
                fns = {n: (lambda bb, *ys, f=f: f(bb, list(ys))) for n, f in starts.items()}
                care = subst_cv(care, fns)
                for o in pend.values():
                    N = TT.given(o[3], care)
                    progress = progress or N is not o[3]
                    o[3] = N
                care = TRUE
            if pend and not progress:
                part = s.source(pend)
                if part:
                    s.fold_group({n: pend[n] for n in pend if n in part}, starts, b)
                    fns = {n: (lambda bb, *ys, f=starts[n]: f(bb, list(ys))) for n in part}
                    for n in part:
                        names.discard(n)
                        del pend[n]
                    for o in pend.values():
                        o[3] = subst_cv(o[3], fns)
                    progress = True
        if pend:
            s.fold_group(pend, starts, b)
        return starts

    def source(s, pend):
        """locations that recur without reading the others, if any"""
        reads = {n: {x for x in o[3].fs if isinstance(x, str) and x in pend and x != n} for n, o in pend.items()}
        best = None
        for n in sorted(pend, key=lambda x: (len(x), x)):
            seen, todo = {n}, [n]
            while todo:
                for m in reads[todo.pop()]:
                    if m not in seen:
                        seen.add(m)
                        todo.append(m)
            if best is None or len(seen) < len(best):
                best = seen
        return best if len(best) < len(pend) else None

    def solve_deltas(s, pend, starts, b):
        """locations each written at one iteration only, reading one another before that: solved together"""
        form = {}
        for name, (lf, xs, init, N) in pend.items():
            if lf.kind == "seq" or not xs or not any(isinstance(x, str) and x in pend and x != name for x in N.fs):
                continue
            me = s.carry(lf, b, xs)
            r = delta_solve(s.at_index(N, name, xs, me, b), b, me)
            if r is not None:
                form[name] = (lf, xs, init, r[0], r[1])
        while form:
            out = {}
            for name, (lf, xs, init, g, e) in form.items():
                bad = []

                def before(o):
                    lo, xo, io, go, eo = form[o]

                    def f(bb, *ys):
                        m = dict(zip(xo, ys))
                        # the other location's iteration is not before this one
                        if bb is g and is_nonneg(sub(subst(go, m), g)):
                            return subst(io, m)
                        bad.append(o)
                        return ZERO

                    return f

                e2 = subst_cv(e, {o: before(o) for o in form})
                if bad or any(isinstance(x, str) and x in pend for x in e2.fs):
                    continue
                out[name] = (lf, xs, init, g, e2)
            done = len(out) == len(form)
            form = out
            if done:
                break
        for name, (lf, xs, init, g, e) in form.items():

            def f(bb, ys, xs=xs, init=init, g=g, e=e):
                m = dict(zip(xs, ys))
                gg = subst(g, m)
                hit = and_(le_(ZERO, gg), lt_(gg, bb))
                return ite(hit, subst(e, m), subst(init, m))

            starts[name] = f
            del pend[name]
        if form:
            for o in pend.values():
                o[3] = subst_cv(o[3], {n: lambda bb, *ys, f=starts[n]: f(bb, list(ys)) for n in form})

    def solve_one(s, lf, xs, init, N, b, Tn):
        me = s.carry(lf, b, xs)

        def par(t, ys, extra=None):
            m = dict(zip(xs, ys))
            if extra:
                m.update(extra)
            return subst(t, m)

        if lf.name not in N.fs:
            if N is init:
                return lambda bb, ys: par(init, ys)

            def f(bb, ys):
                nz = lt_(ZERO, bb)
                i0 = par(init, ys)
                if nz is FALSE:
                    return i0
                return ite(nz, par(N, ys, {b: sub(bb, ONE)}), i0)

            return f
        if N is me:
            return lambda bb, ys: par(init, ys)
        N0 = N
        N = s.at_index(N, lf.name, xs, me, b)
        if xs and is_dd(N) and lf.sort in ("i", "u", "r") and N.sort in ("i", "u", "r") and lf.name in sub(N, me).fs:
            N = s.at_index(prune(N0), lf.name, xs, me, b)
        # indexed overwrite
        r = delta_solve(N, b, me)
        if r is not None:
            g, e = r
            own = {}
            e2 = subst_cv(e, {lf.name: lambda bb, *ys: init if list(ys) == list(xs) else app("?othercarry")})
            if not any(isinstance(x, str) and x == lf.name for x in e2.fs) and not (e2.unk and not e.unk):
                if is_seq(e2):
                    e2 = tidy(e2)

                def f(bb, ys):
                    gg = par(g, ys)
                    hit = and_(le_(ZERO, gg), lt_(gg, bb))
                    return ite(hit, par(e2, ys), par(init, ys))

                return f
        if lf.kind == "seq":
            tail = s.appended(N, lf.name, xs, me, b)
            if tail is not None:

                def f(bb, ys):
                    t = fresh("a", sort="u")
                    set_range(t, bb if not is_dd(bb) else None)
                    return scat([par(init, ys), sfor(bb, t, par(tail, ys, {b: t}))])

                return f
            return None
        if N.sort == "b" and lf.sort == "b":
            x = restrict_atom(N, me, 1)
            y = restrict_atom(N, me, 0)
            if x is not None and lf.name not in x.fs and lf.name not in y.fs:
                if x is TRUE:

                    def f(bb, ys):
                        t = fresh("a", sort="u")
                        set_range(t, bb if not is_dd(bb) else None)
                        return or_(par(init, ys), any_(bb, t, par(y, ys, {b: t})))

                    return f
                if y is FALSE:

                    def f(bb, ys):
                        t = fresh("a", sort="u")
                        set_range(t, bb if not is_dd(bb) else None)
                        return and_(par(init, ys), not_(any_(bb, t, par(not_(x), ys, {b: t}))))

                    return f
            return None
        if lf.sort in ("i", "u", "r") and N.sort in ("i", "u", "r"):
            d = sub(N, me)
            if lf.name not in d.fs:

                def f(bb, ys):
                    t = fresh("a", sort="u")
                    set_range(t, bb if not is_dd(bb) else None)
                    return add(par(init, ys), sum_(bb, t, par(d, ys, {b: t})))

                return f
            h = hole(N, me, b, lf.name)
            if h is not None:

                def f(bb, ys):
                    x0 = par(init, ys)
                    g, v = par(h[0], ys), par(h[1], ys)
                    return add(add(x0, bb), b2i(and_(g, and_(lt_(x0, v), le_(v, add(x0, bb))))))

                return f
            if not is_dd(N):
                q = mul(N, inv(me)) if N.op in TT.NUM else None
                if q is not None and lf.name not in q.fs:

                    def f(bb, ys):
                        t = fresh("a", sort="u")
                        set_range(t, bb if not is_dd(bb) else None)
                        return mul(par(init, ys), prod_(bb, t, par(q, ys, {b: t})))

                    return f
            m = minmax(N, me)
            if m is not None:
                op, d = m
                if lf.name not in d.fs:

                    def f(bb, ys):
                        t = fresh("a", sort="u")
                        set_range(t, bb if not is_dd(bb) else None)
                        return red_(op, bb, par(init, ys), t, par(d, ys, {b: t}))

                    return f
        return None

    def appended(s, N, name, xs, me, b):
        """what an iteration appends to the carried sequence, or None when it does anything else"""
        parts = list(N.a) if N.op == "scat" else [N]
        if parts and parts[0] is me:
            tail = parts[1:]
        else:
            want = list(me.a[1:])
            flat = []

            def flatten(p, g):
                if p.op == "sif":
                    flatten(p.a[1], and_(g, p.a[0]))
                elif p.op == "scat":
                    for q in p.a:
                        flatten(q, g)
                else:
                    flat.append((g, p))

            for p in parts:
                flatten(p, TRUE)
            seen, all_, tail = [], FALSE, []
            for g, p in flat:
                if p.op == "scv" and p.a[0] == name and not s.same_under(g, p.a[1:], want, list(xs) + [b]):
                    return None
                if p.op == "scv" and p.a[0] == name:
                    if any(and_(g, h) is not FALSE for h in seen):
                        return None
                    all_ = or_(all_, g)
                else:
                    tail.append(sif(g, p))
                seen.append(g)
            if all_ is not TRUE:
                return None
        if any(name in p.fs for p in tail):
            return None
        return scat(tail)

    def same_under(s, g, a, b, syms):
        """the terms of a and b are equal wherever g holds, by an equality g states"""
        if all(x is y for x, y in zip(a, b)):
            return True
        m = {}
        while is_dd(g) and len(g.a) == 4 and g.a[1] is FALSE and g.a[3] is FALSE:
            v = subst(g.a[0], m) if m else g.a[0]
            for x in syms:
                h = solve_for(v, x) if v.op in TT.NUM else None
                if h is not None:
                    m = {y: subst(t, {x: h}) for y, t in m.items()}
                    m[x] = h
                    break
            g = g.a[2]
        return bool(m) and all(subst(x, m) is subst(y, m) for x, y in zip(a, b))

    def at_index(s, N, name, xs, me, b):
        """under 'index == g' the carried value at g is the carried value at the index"""
        if not is_dd(N) or not xs:
            return N
        memo = {}

        def rec(t, eqs):
            if name not in t.fs:
                return t
            key = (t, eqs)
            r = memo.get(key)
            if r is not None:
                return r
            if is_dd(t):
                v = t.a[0]
                ch = []
                for i, c in enumerate(t.a[1:]):
                    e = eqs
                    if len(t.a) == 4 and i == 1 and name not in v.fs and name in c.fs:
                        w = subst(v, dict(eqs)) if eqs else v
                        for x in list(xs) + [b]:
                            g = solve_for(w, x) if w.op in TT.NUM else None
                            if g is not None:
                                e = tuple((y, subst(h, {x: g})) for y, h in eqs) + ((x, g),)
                                break
                    elif len(t.a) == 4 and i == 0 and name in c.fs:
                        # x < 1
                        for x in list(xs) + [b]:
                            if v is sub(x, ONE) and is_nonneg(x):
                                e = tuple((y, subst(h, {x: ZERO})) for y, h in eqs) + ((x, ZERO),)
                    ch.append(rec(c, e))
                r = rebuild(v, len(ch), ch)
            elif eqs:
                m = dict(eqs)
                want = [subst(y, m) for y in me.a[1:]]
                r = subst_cv(t, {name: lambda *a: me if all(subst(y, m) is z for y, z in zip(a, want)) else mk("cv", name, *a, sort=me.sort)})
            else:
                r = t
            memo[key] = r
            return r

        return rec(N, ())

    def fold_group(s, pend, starts, b):
        """canonical fold terms for mutually recursive carries that no rule solves"""
        names = list(pend)
        col = {}
        close_all = lambda t, xs: _lams(t, xs)
        for n in names:
            lf, xs, init, N = pend[n]
            col[n] = mk("colour", close_all(init, xs), lit(lf.kind))
        prev = len(set(col.values()))
        for rnd in range(len(names) + 1):
            new = {}
            for n in names:
                lf, xs, init, N = pend[n]
                body = subst_cv(N, {m: s._colcv(col[m], pend[m][0]) for m in names})
                new[n] = mk("colour", close_all(init, xs), lit(lf.kind), close_all(body, list(xs) + [b]))
            k = len(set(new.values()))
            last = col
            col = new
            if k == prev and rnd > 0:
                break
            prev = k
        # final table: names by colour
        reps = {}
        for n in names:
            reps.setdefault(col[n], n)
        table = []
        for cterm, n in sorted(reps.items(), key=lambda kv: kv[0].id):
            lf, xs, init, N = pend[n]
            body = subst_cv(N, {m: s._colcv(col[m], pend[m][0]) for m in names})
            table.append((f"c{cterm.id}", lf.kind, close_all(init, xs), close_all(body, list(xs) + [b])))
        # restrict to what is reachable
        byname = {t[0]: t for t in table}
        for n in names:
            lf = pend[n][0]
            cn = f"c{col[n].id}"
            need = set()
            todo = [cn]
            while todo:
                x = todo.pop()
                if x in need:
                    continue
                need.add(x)
                for y in byname[x][3].fs:
                    if isinstance(y, str) and y in byname:
                        todo.append(y)
            tab = tuple(byname[x] for x in sorted(need, key=lambda z: int(z[1:])))

            own = s.own_step(n, pend[n], b)

            def f(bb, ys, cn=cn, tab=tab, lf=lf, own=own, n=n):
                if own is not None:
                    # only one step writes there: what it writes, from the other values as that step finds them
                    g, E = own
                    xs, init = pend[n][1:3]
                    m = dict(zip(xs, ys))
                    h = subst(g, m)
                    v = subst(subst(E, m), {b: h})
                    v = subst_cv(v, {k: (lambda bb2, *zs, k=k: starts[k](bb2, list(zs))) for k in pend})
                    return ite(and_(le_(ZERO, h), lt_(h, bb)), v, subst(init, m))
                k = cval(bb)
                if k is not None and 0 <= k <= 16 and not any(w[1] for w in pend.values()):
                    # a fixed number of rounds
                    vals = {m: w[2] for m, w in pend.items()}
                    for i in range(int(k)):
                        vals = {m: subst(subst_cv(w[3], {q: (lambda *_, q=q: vals[q]) for q in pend}), {b: const(i)}) for m, w in pend.items()}
                    return vals[n]
                t = mk("fold", cn, bb, tab, tuple(ys), lf.kind, sort="v" if lf.kind == "seq" else lf.sort)
                return as_seq(t) if lf.kind == "seq" else t

            starts[n] = f

    def own_step(s, name, what, b):
        """(g, E) when exactly step g changes the value, to E, which is independent of its earlier values"""
        lf, xs, init, N = what
        if lf.kind == "seq" or not xs or not is_dd(N) or len(N.a) != 4:
            return None
        v = N.a[0]
        if any(isinstance(k, str) for k in v.fs) or v.op not in TT.NUM:
            return None
        for other in (N.a[1], N.a[3]):
            if not (other.op == "cv" and other.a[0] == name and other.a[1] is b and all(x is y for x, y in zip(other.a[2:], xs))):
                return None
        if name in N.a[2].fs:
            return None
        g = solve_for(v, b)
        if g is None or not is_int(g) or b in g.fs:
            return None
        return g, N.a[2]

    def _colcv(s, c, lf):
        def f(bb, *ys):
            return mk("scv" if lf.kind == "seq" else "cv", f"c{c.id}", *ys, sort=lf.sort)

        return f


class _TyInt:
    c = "int"
    s = "int"
    isref = False
    signed = True
    bits = 64


TYINT = _TyInt()


def _lams(t, xs):
    for x in xs:
        t = lam(x, t)
    return t


def _texty(p):
    x = p.a[0]
    return (x.op == "lit" and isinstance(x.a[0], str)) or (x.op == "app" and x.a[0] in ("fmt", "tostr"))


def _textish(t):
    x = t.a[0]
    return x.op == "app" and x.sort == "text"


def slen_any(v):
    if is_dd(v):
        return lift_any(slen_any, v)
    return slen(v if is_seq(v) else as_seq(v))


def mk_sfor(n, s, body):
    if is_dd(n):
        return sfor(n, s, body)
    return mk("sfor", n, close(s, body, n)) if not (n is ZERO) else SEMPTY


def unwrapped(x):
    """a size that may be npos, as a number to compare by"""
    if x.op in ("app", "poly") and any(a.op == "app" and a.a[0] == "find" and e == 1 and c == 1 for m, c in as_poly(x) for a, e in m):
        for m, c in as_poly(x):
            if len(m) == 1 and m[0][0].op == "app" and m[0][0].a[0] == "find":
                f = m[0][0]
                rest = sub(x, f)
                if is_nonneg(rest) and cval(rest) != 0:
                    return x  # npos + 1 and more wraps around
                return ite(eq_(f, NPOS), add(const(2**64 - 1), rest), x)
    return x


def is_endless(n):
    return n.op == "app" and n.a[0] == "first" and cval(n.a[1]) == -1 and n.a[2].a[1] is FALSE


def first_(c, b, n):
    """least b (below n) with c(b)"""
    if n is not None and is_endless(n):
        n = None
    if n is None:
        a = c
        if a.op == "br" and a.a[1] is FALSE and a.a[2] is TRUE:
            a = a.a[0]
        if a.op == "any" and a.a[0] is b:
            x = fresh("b", sort="u")
            body = open_bv(a.a[1], a.h, x)
            if b not in body.fs:
                # it has happened by b: one past the first time
                return add(ONE, first_(body, x, None))
    return app("first", n if n is not None else const(-1), lam(b, c), sort="u")


NEVER = const(2**63)  # no iteration ends the loop


def trip_split(c, b):
    """least b >= 0 with not c(b), for c that changes only around values of b given by linear tests"""

    class No(Exception):
        pass

    budget = [60]

    def fork(q, branches, facts):
        """by the sign of q, where the facts leave it open"""
        if is_dd(q):
            raise No
        out = []
        for i in range(3):
            f = TT.more_facts(facts, q, i) if is_int(q) else facts
            ok = f is not None and prune(sign3(q, *[TRUE if j == i else FALSE for j in range(3)]), facts) is not FALSE
            out.append(branches[i](f) if ok else None)
        live = [x for x in out if x is not None]
        if not live:
            raise No
        fill = out[1] if out[1] is not None else live[0]
        return sign3(q, *[fill if x is None else x for x in out])

    def by(c, facts, yes, no):
        c = prune(c, facts)
        if c is TRUE:
            return yes(facts)
        if c is FALSE:
            return no(facts)
        v = c.a[0]
        if c.op == "cmp":
            return fork(v, [lambda f, i=i: by(c.a[1 + i], f, yes, no) for i in range(3)], facts)
        return br(v, by(c.a[1], facts, yes, no), by(c.a[2], facts, yes, no))

    def least(c, lo, facts):
        budget[0] -= 1
        if budget[0] < 0:
            raise No
        if c is TRUE:
            return NEVER
        if c is FALSE:
            return lo
        if c.op == "br":
            if dep(c.a[0], b):
                raise No
            return br(c.a[0], least(c.a[1], lo, facts), least(c.a[2], lo, facts))
        if c.op != "cmp":
            raise No
        q = c.a[0]
        if not dep(q, b):
            return fork(q, [lambda f, i=i: least(c.a[1 + i], lo, f) for i in range(3)], facts)
        r = solve_for(q, b)
        if r is None or is_dd(r) or not is_int(r):
            raise No
        below, e, above = c.a[1:]
        if dict(as_poly(q)).get(((b, 1),)) < 0:
            below, above = above, below
        e1 = subst(e, {b: r})
        same = e is above

        def at_r(f):
            if same:
                return least(above, r, f)
            return by(e1, f, lambda g: least(above, add(r, ONE), g), lambda g: r)

        def after(f):
            t = least(below, lo, f)

            def pick(t, f):
                if t is NEVER:
                    return at_r(f)
                if is_dd(t):
                    if t.op == "cmp":
                        return fork(t.a[0], [lambda g, i=i: pick(t.a[1 + i], g) for i in range(3)], f)
                    return br(t.a[0], pick(t.a[1], f), pick(t.a[2], f))
                return by(lt_(t, r), f, lambda g: t, at_r)

            return pick(t, f)

        if r is lo:
            return at_r(facts)
        return fork(sub(r, lo), [lambda f: least(above, lo, f), at_r, after], facts)

    try:
        return least(c, ZERO, ())
    except No:
        return None


def trip_(c, b):
    """least b >= 0 with not c(b), or None"""
    r = trip_direct(c, b)
    if r is None and c.op == "cmp" and dep(c.a[0], b):
        r = trip_split(c, b)
    return r


def trip_direct(c, b):
    if c is FALSE:
        return ZERO
    if c is TRUE:
        return None
    if not dep(c, b):
        x = ite(c, const(-1), ZERO)
        return None
    if c.op == "br":
        if not dep(c.a[0], b):
            f, t = trip_(c.a[1], b), trip_(c.a[2], b)
            if f is None or t is None:
                return None
            return br(c.a[0], f, t)
        return None
    if c.op == "cmp":
        q, l, e, g = c.a
        if not dep(q, b):
            r = [trip_(x, b) for x in (l, e, g)]
            if any(x is None for x in r):
                return None
            return ite3(q, *r)
        r = solve_for(q, b)
        if r is None:
            return None
        co = dict(as_poly(q)).get(((b, 1),))
        lo, hi = (l, g) if co > 0 else (g, l)
        # lo: b < r, e: b == r, hi: b > r
        if hi is FALSE:
            if e is FALSE:
                up = max_(r, ZERO)
            elif e is lo or e is TRUE:
                up = max_(add(r, ONE), ZERO)
            else:
                return None
            if lo is TRUE:
                return up
            t = trip_(lo, b)
            if t is None:
                return up if False else None
            return min_(t, up)
        if lo is FALSE and e is FALSE:
            # must already be past r at b = 0
            t = trip_(hi, b)
            if t is None:
                return None
            return ite(lt_(r, ZERO), t, ZERO)
        if e is FALSE and lo is TRUE and hi is TRUE:
            # b != r
            if is_nonneg(r):
                return r
            return None
        if e is FALSE and hi is lo:
            t = trip_(lo, b)
            if t is not None and is_nonneg(r):
                return min_(t, r)
    return None


def hole(N, me, b, name):
    """N counts on from me by one, leaving out the single value v when g holds: (g, v)"""
    if not is_dd(N):
        return None
    x = fresh("x", sort=me.sort)
    N = subst_cv(N, {name: lambda *a: x})
    me = x
    if b in N.fs:
        return None
    for q, n in all_tests(N).items():
        if n != 3 or not dep(q, x):
            continue
        r = solve_for(q, me)
        if r is None:
            continue
        lo, e, hi = [restrict_deep(N, q, i) for i in range(3)]
        if lo is not hi or lo is not add(me, ONE):
            continue
        v = add(r, ONE)
        g = lift_any(lambda l: TRUE if l is add(me, const(2)) else FALSE if l is add(me, ONE) else lit("?"), e)
        if x in g.fs or x in v.fs or any(l not in (TRUE, FALSE) for l in dd_leaves(g)) or is_dd(v):
            continue
        return g, v
    return None


def restrict_atom(N, a, i):
    """N with boolean atom a fixed"""
    if not is_dd(N) and N is not a:
        return N
    if N is a:
        return TRUE if i else FALSE
    return restrict(N, a, i)


def minmax(N, me):
    """N == max(me, d) or min(me, d)"""
    if is_dd(N):
        return None
    atoms = []
    for m, c in as_poly(N):
        for a, e in m:
            if a.op == "app" and a.a[0] == "pos" and me.a[0] in a.fs:
                atoms.append(a)
    if len(set(atoms)) != 1:
        return None
    q = atoms[0].a[1]
    x = solve_for(q, me) if me.op != "poly" else None
    if x is None:
        return None
    if max_(me, x) is N:
        return ("maxred", x)
    if min_(me, x) is N:
        return ("minred", x)
    return None


def all_tests(t, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_dd(x):
            acc[x.a[0]] = len(x.a) - 1
            st.extend(x.a[1:])
        elif x.op in ("sif", "selem", "scat", "struct", "sfor"):
            for y in x.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    for kv in y:
                        if isinstance(kv, tuple):
                            st.append(kv[1])
    return acc


def restrict_deep(t, v, i):
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if is_dd(x):
            if x.a[0] is v:
                r = rec(x.a[1 + i])
            else:
                r = rebuild(x.a[0], len(x.a) - 1, [rec(c) for c in x.a[1:]])
        elif x.op == "sif":
            r = sif(rec(x.a[0]), rec(x.a[1]))
        elif x.op == "selem":
            r = selem(rec(x.a[0]))
        elif x.op == "scat":
            r = scat([rec(y) for y in x.a])
        elif x.op == "struct":
            r = struct({k: rec(w) for k, w in x.a[0]})
        else:
            r = x
        memo[x] = r
        return r

    return rec(t)


def delta_solve(N, b, me):
    """N is 'me' except at the single iteration b == g: returns (g, value there)"""
    for v, n in all_tests(N).items():
        if n != 3 or not dep(v, b):
            continue
        g = at = solve_for(v, b)
        if g is None:
            g, at = solve_div(v, b)
        if g is None:
            continue
        lo, hi = restrict_deep(N, v, 0), restrict_deep(N, v, 2)
        if lo is not me:
            lo = tidy(lo, TT.more_facts((), v, 0) or ())
        if hi is not me:
            hi = tidy(hi, TT.more_facts((), v, 2) or ())
        if lo is me and hi is me:
            e = subst(restrict_deep(N, v, 1), {b: at})
            return g, e
    return None


def solve_div(v, b):
    """v == 0 solved for b where v = R + L*b, or v = (A - b) % L with b < L: (the iteration or -1, the iteration if there is one)"""
    if v.op == "app" and v.a[0] == "imod" and hi_of(b) is v.a[2]:
        A = add(v.a[1], b)
        if not dep(A, b) and is_nonneg(A):
            g = imod(A, v.a[2])
            return g, g
    if v.op != "poly":
        return None, None
    co, rest = {}, {}
    for m, c in as_poly(v):
        k = [e for a, e in m if a is b]
        if not k:
            if any(dep(a, b) for a, e in m):
                return None, None
            rest[m] = c
        elif k[0] == 1 and not any(dep(a, b) for a, e in m if a is not b):
            co[tuple((a, e) for a, e in m if a is not b)] = c
        else:
            return None, None
    L, R = TT.poly(co), TT.poly(rest)
    if is_nonneg(neg(L)):
        L, R = neg(L), neg(R)
    if not (hi_of(b) is L or is_nonneg(sub(L, ONE))):
        return None, None
    g = idiv(neg(R), L)
    return ite(eq_(imod(neg(R), L), ZERO), g, const(-1)), g
