"""Random interpretation of terms: a deterministic family of valuations of the atoms, and the value of a term in one.

Used only to separate two terms whose normal forms differ: an alarm needs a valuation in which they differ.  A valuation
assigns every input, draw and opaque operation a value by hashing its name and (evaluated) arguments, so equal
applications get equal values; sums, folds, comprehensions and searches are evaluated by their definition.
"""
import hashlib
from struct import pack, unpack
import math
from fractions import Fraction
from functools import cmp_to_key

from terms import *
import terms as TT


class Skip(Exception):
    """the valuation does not settle the term (cost, or nothing sensible to evaluate)"""


NPOS = 2**64 - 1
ALPH = "0123456789.-, ;ab\n"


class Env:
    __slots__ = ("m", "cv", "id", "ext")
    n = 0

    def __init__(s, m, cv):
        s.m, s.cv = m, cv
        Env.n += 1
        s.id = Env.n
        s.ext = {}

    def bind(s, k, v):
        r = s.ext.get((k, v))
        if r is None:
            m = dict(s.m)
            m[k] = v
            r = s.ext[(k, v)] = Env(m, s.cv)
        return r

    def bindcv(s, d):
        c = dict(s.cv)
        c.update(d)
        return Env(s.m, c)


class Poison:
    """the value of an operation outside its domain; differs from every number"""

    __slots__ = ("k",)

    def __init__(s, k):
        s.k = k

    def __eq__(s, o):
        return isinstance(o, Poison) and s.k == o.k

    def __hash__(s):
        return hash(("poison", s.k))

    def __repr__(s):
        return f"<undefined {s.k}>"


class Val:
    def __init__(s, seed, grid=False, sizes=None, budget=400000, fixed=None, texts=None, maxsize=4):
        s.seed, s.grid = seed, grid
        s.memo = {}
        s.hm = {}
        s.joined = {}
        s.budget = budget
        s.fixed = fixed or {}
        s.texts = texts or {}
        s.maxsize = maxsize
        s.inputs = {}
        s.root = Env({}, {})
        s.idtext = {v: k for k, v in _textids().items()}

    def h(s, key):
        r = s.hm.get(key)
        if r is None:
            d = hashlib.blake2b(repr((s.seed, key)).encode(), digest_size=8).digest()
            r = s.hm[key] = int.from_bytes(d, "big")
        return r

    def real(s, key):
        x = s.h(key)
        if s.grid:
            return Fraction((x % 9) - 4, 2)
        return Fraction(x % 4001 - 2000, 997)

    def u01(s, key):
        x = s.h(key)
        if s.grid:
            return Fraction(x % 4, 4)
        return Fraction(x % 4001, 4002)

    def bysort(s, sort, key):
        if sort == "r":
            return s.real(key)
        if sort == "u":
            return s.h(key) % (s.maxsize + 1)
        if sort == "i":
            return s.h(key) % 7 - 3
        if sort == "b":
            return s.h(key) % 2 == 1
        if sort == "text":
            return tuple("\u27e8%x\u27e9" % (s.h(key) % 0xFFFFFF))
        return ("opq", s.h(key))

    # ------------------------------------------------------------------
    def ev(s, t, env=None):
        return s._ev(t, env or s.root)

    def _ev(s, t, env):
        key = (t, env.id)
        r = s.memo.get(key)
        if r is not None:
            return r
        s.budget -= 1
        if s.budget < 0:
            raise Skip("budget")
        m = getattr(s, "e_" + t.op, None)
        if m is None:
            r = s.generic(t, env)
        else:
            r = m(t, env)
        s.memo[key] = r
        return r

    def generic(s, t, env):
        return s.bysort(t.sort, (t.op,) + tuple(s.arg(x, env) for x in t.a))

    def arg(s, x, env):
        if isinstance(x, T):
            return s._ev(x, env)
        if isinstance(x, tuple):
            return tuple(s.arg(y, env) for y in x)
        return x

    def e_poly(s, t, env):
        r = Fraction(0)
        for m, c in t.a[0]:
            x = c
            for a, e in m:
                v = s.num(s._ev(a, env))
                if isinstance(v, Poison):
                    return v
                if e < 0:
                    if v == 0:
                        return Poison("division by zero")
                    x = x / Fraction(v) ** (-e)
                else:
                    x = x * v**e
            r += x
        if r.denominator == 1:
            return int(r)
        return r

    def num(s, v):
        if v is True:
            return 1
        if v is False:
            return 0
        if isinstance(v, (int, Fraction, Poison)):
            return v
        raise Skip("not a number")

    def e_sym(s, t, env):
        hi = TT._range.get(t)
        nm = str(t.a[0])
        if hi is not None:
            n = s._ev(hi, env)
            if not isinstance(n, int) or n <= 0:
                raise Skip("empty range")
            v = s.h(("sym", nm)) % n
        else:
            v = s.bysort(t.sort, ("sym", nm))
        s.inputs[nm] = v
        return v

    def e_bv(s, t, env):
        if t.a[0] not in env.m:
            raise Skip("unbound")
        return env.m[t.a[0]]

    def e_lit(s, t, env):
        v = t.a[0]
        return ("lit", v)

    def e_true(s, t, env):
        return True

    def e_false(s, t, env):
        return False

    def e_cmp(s, t, env):
        v = s.num(s._ev(t.a[0], env))
        if isinstance(v, Poison):
            return v
        return s._ev(t.a[1] if v < 0 else t.a[2] if v == 0 else t.a[3], env)

    def e_br(s, t, env):
        v = s._ev(t.a[0], env)
        if isinstance(v, Poison):
            return v
        if v not in (True, False):
            raise Skip("truth value")
        return s._ev(t.a[2] if v else t.a[1], env)

    def count(s, n, env):
        v = s._ev(n, env)
        if isinstance(v, Poison):
            raise Skip("count")
        if v != int(v):
            raise Skip("count")
        v = int(v)
        if v > 4096:
            raise Skip("large")
        return max(v, 0)

    def e_sum(s, t, env):
        r = Fraction(0)
        for i in range(s.count(t.a[0], env)):
            v = s.num(s._ev(t.a[1], env.bind(t.h, i)))
            if isinstance(v, Poison):
                return v
            r += v
        return int(r) if r.denominator == 1 else r

    def e_prod(s, t, env):
        r = Fraction(1)
        for i in range(s.count(t.a[0], env)):
            v = s.num(s._ev(t.a[1], env.bind(t.h, i)))
            if isinstance(v, Poison):
                return v
            r *= v
        return int(r) if r.denominator == 1 else r

    def e_any(s, t, env):
        for i in range(s.count(t.a[0], env)):
            v = s._ev(t.a[1], env.bind(t.h, i))
            if isinstance(v, Poison):
                return v
            if v:
                return True
        return False

    def red(s, t, env, f):
        r = s.num(s._ev(t.a[1], env))
        for i in range(s.count(t.a[0], env)):
            v = s.num(s._ev(t.a[2], env.bind(t.h, i)))
            if isinstance(v, Poison):
                return v
            if isinstance(r, Poison):
                return r
            r = f(r, v)
        return r

    def e_maxred(s, t, env):
        return s.red(t, env, max)

    def e_minred(s, t, env):
        return s.red(t, env, min)

    # sequences: tuples; text is a tuple of characters
    def e_sfor(s, t, env):
        out = []
        for i in range(s.count(t.a[0], env)):
            out.extend(s.seq(t.a[1], env.bind(t.h, i)))
            if len(out) > 20000:
                raise Skip("long")
        return tuple(out)

    def seq(s, t, env):
        v = s._ev(t, env)
        if isinstance(v, tuple) and not (v and v[0] in ("lit", "opq")):
            return v
        if isinstance(v, tuple) and v[0] == "lit" and isinstance(v[1], str):
            return tuple(v[1])
        raise Skip("not a sequence")

    def e_sif(s, t, env):
        v = s._ev(t.a[0], env)
        if isinstance(v, Poison):
            raise Skip("poison")
        return s.seq(t.a[1], env) if v else ()

    def e_selem(s, t, env):
        x = t.a[0]
        if x.op == "lit" and isinstance(x.a[0], str):
            return tuple(x.a[0])
        if x.op == "app" and (x.a[0] in ("fmt", "tostr") or x.sort == "text"):
            v = s._ev(x, env)
            return v if isinstance(v, tuple) else ("?",)
        if x.op in ("br", "cmp") and not _text_element(x):
            v = s._ev(x, env)
            return v if isinstance(v, tuple) else ("?",)
        return (s._ev(x, env),)

    def e_scat(s, t, env):
        out = []
        for p in t.a:
            out.extend(s.seq(p, env))
        return tuple(out)

    def e_sopq(s, t, env):
        v = s._ev(t.a[0], env)
        if isinstance(v, tuple) and not (v and v[0] in ("lit", "opq")):
            return v
        if isinstance(v, tuple) and v and v[0] == "lit" and isinstance(v[1], str):
            return tuple(v[1])
        x = t.a[0]
        # an opaque vector: its elements are opaque values
        n = s.h(("len", v)) % (s.maxsize + 1)
        so = x.sort[1:] if x.sort.startswith("[") else "r"
        return tuple(s.bysort(so, ("at", v, i)) for i in range(n))

    def e_struct(s, t, env):
        return ("struct",) + tuple((k, s._ev(v, env)) for k, v in t.a[0])

    def e_lam(s, t, env):
        # a function value is compared by its term
        return ("lam", t.id)

    def applam(s, t, env, *args):
        for a in args:
            if t.op != "lam":
                raise Skip("lam")
            env = env.bind(t.h, a)
            t = t.a[1]
        return s._ev(t, env)

    def e_fold(s, t, env):
        name, cnt, table, ys, kind = t.a
        n = s.count(cnt, env)
        tab = {x[0]: x for x in table}
        ysv = tuple(s._ev(y, env) for y in ys)
        memo = {}

        def F(nm, k, zs):
            key = (nm, k, zs)
            if key in memo:
                return memo[key]
            s.budget -= 1
            if s.budget < 0:
                raise Skip("budget")
            _, kd, init, step = tab[nm]
            if k == 0:
                r = s.applam(init, env, *reversed(zs))
            else:
                e2 = envs.get(k)
                if e2 is None:
                    e2 = envs[k] = env.bindcv({m: (lambda *q, m=m: F(m, k - 1, q)) for m in tab})
                r = s.applam(step, e2, k - 1, *reversed(zs))
            memo[key] = r
            return r

        envs = {}
        for k in range(1, n):
            F(name, k, ysv) if not ysv else None
        return F(name, n, ysv)

    def e_cv(s, t, env):
        f = env.cv.get(t.a[0])
        if f is None:
            raise Skip("carry")
        return f(*[s._ev(x, env) for x in t.a[1:]])

    e_scv = e_cv

    # operations
    def e_app(s, t, env):
        name = t.a[0]
        m = getattr(s, "a_" + name, None)
        if m is not None:
            return m(t, env)
        if name.startswith("?"):
            raise Skip("unknown " + name)
        args = tuple(s.arg(x, env) for x in t.a[1:])
        if name in TT.FUN1:
            return s.fun(name, args[0])
        if any(isinstance(x, Poison) for x in args):
            return next(x for x in args if isinstance(x, Poison))
        key = (name,) + args
        if name in s.fixed:
            return s.fixed[name](s, *args)
        v = s.bysort(t.sort, key)
        if name.startswith("toml:"):
            path = ".".join(_word(x) for x in args)
            k = "toml:" + ".".join(_word(x) for x in args[:-1])
            if name == "toml:val" and k in s.texts:
                v = tuple(s.texts[k](s))
            elif name == "toml:has" and k in s.texts:
                v = s.h(key) % 8 > 0
            s.inputs[name[5:] + " " + path] = v
            return v
        if t.sort == "text" and name == "fmt":
            return s.fmt(args, v)
        return v

    def fmt(s, args, dflt):
        import re

        spec, v = args[0][1], args[1]
        if isinstance(spec, tuple):
            spec = "".join(spec)
        spec_ = spec
        if "%" in spec:  # a time
            return tuple(str(s.h(("time", v)) % 100) + "s")
        if spec in ("to_string", "<<"):
            spec = ""
        m = re.fullmatch(r"([<>^]?)([1-9]\d*)?(\.\d+)?([a-zA-Z]?)", spec)
        if not m or isinstance(v, bool):
            return dflt
        if isinstance(v, tuple) and all(isinstance(c, str) for c in v):
            r, al = "".join(v), "<"
            if m.group(3):
                r = r[: int(m.group(3)[1:])]
        elif isinstance(v, int) and not m.group(3) and m.group(4) in ("", "d"):
            r, al = str(v), ">"
        elif isinstance(v, (int, Fraction)) and not m.group(3) and not m.group(4) and spec_ not in ("to_string", "<<"):
            r, al = repr(float(v)), ">"
            r = r[:-2] if r.endswith(".0") else r
        elif isinstance(v, (int, Fraction)):
            if spec_ in ("to_string", "<<"):
                m = re.fullmatch(r"()()(\.\d+)([a-z])", ".6f" if spec_ == "to_string" else ".6g")
            r, al = format(float(v), (m.group(3) or ".12") + (m.group(4) or "g")), ">"
        else:
            return dflt
        w, al = int(m.group(2) or 0), m.group(1) or al
        return tuple(r.ljust(w) if al == "<" else r.rjust(w) if al == ">" else r.center(w))

    def a_filetext(s, t, env):
        p = s.text(t.a[1], env)
        k = "file:" + p if "file:" + p in s.texts else "file"
        if k not in s.texts:
            raise Skip("file text")
        v = s.inputs.get(("file", p))
        if v is None:
            v = s.inputs[("file", p)] = tuple(s.texts[k](s))
        return v

    def a_blanks(s, t, env):
        n = s._ev(t.a[1], env)
        if isinstance(n, Poison):
            return n
        return (" ",) * int(n)

    def a_in(s, t, env):
        nm = t.a[1].a[0] if t.a[1].op == "lit" else str(t.a[1])
        args = tuple(s._ev(x, env) for x in t.a[2:])
        if nm in s.fixed:
            v = s.fixed[nm](s, *args)
            if not (t.sort in ("i", "u") and isinstance(v, (float, Fraction)) and not float(v).is_integer()):
                return v
        if t.sort == "text":
            if nm in s.texts:
                v = tuple(s.texts[nm](s, *args))
            else:
                v = s.bysort("text", ("in", nm) + args)
        elif t.sort == "u":
            v = s.h(("in", nm) + args) % (s.maxsize + 1)
            if nm == "n" and s.h(("some", nm)) % 8:
                v = 1 + v % s.maxsize
        else:
            v = s.bysort(t.sort, ("in", nm) + args)
        s.inputs[nm + ("" if not args else str(tuple(_plain(a) for a in args)))] = v
        return v

    def a_idx(s, t, env):
        nm = t.a[1].a[0]
        n = s._ev(t.a[2], env)
        args = tuple(s._ev(x, env) for x in t.a[3:])
        if not isinstance(n, int) or n <= 0:
            raise Skip("empty range")
        v = s.h(("idx", nm, n) + args) % n
        s.inputs[nm + str(tuple(_plain(a) for a in args))] = v
        return v

    def a_draw(s, t, env):
        kind = t.a[1].a[0]
        args = tuple(s.arg(x, env) for x in t.a[2:])
        key = ("draw", kind) + args
        if kind == "u01":
            v = s.u01(key)
        elif kind == "norm":
            v = s.real(key)
        elif kind == "uint":
            sp = args[2]
            if isinstance(sp, Poison) or sp < 0 or sp != int(sp):
                raise Skip("range of a draw")
            v = s.h(key) % (int(sp) + 1)
        else:
            v = s.h(key) % 1000003
        s.inputs[f"draw{tuple(_plain(a) for a in args[1:])}"] = v
        return v

    def a_pos(s, t, env):
        v = s.num(s._ev(t.a[1], env))
        return v if isinstance(v, Poison) or v > 0 else 0

    def a_pow(s, t, env):
        a, b = s.num(s._ev(t.a[1], env)), s.num(s._ev(t.a[2], env))
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        if b == int(b) and abs(b) < 50:
            if a == 0 and b < 0:
                return Poison("division by zero")
            return Fraction(a) ** int(b)
        if a < 0:
            return Poison("root of a negative")
        if b == Fraction(1, 2):
            p, q = math.isqrt(Fraction(a).numerator), math.isqrt(Fraction(a).denominator)
            if p * p == Fraction(a).numerator and q * q == Fraction(a).denominator:
                return Fraction(p, q)
        if a == 0:
            return Poison("division by zero") if b < 0 else 0
        try:
            return Fraction(math.pow(float(a), float(b)))
        except OverflowError:
            raise Skip("overflow")

    def fun(s, name, v):
        v = s.num(v)
        if isinstance(v, Poison):
            return v
        x = float(v)
        try:
            if name == "floor":
                return math.floor(v)
            if name == "ceil":
                return math.ceil(v)
            if name == "round":
                return int(math.floor(abs(v) + Fraction(1, 2))) * (1 if v >= 0 else -1)
            if name == "erfinv":
                return Fraction(erfinv(x)) if abs(x) < 1 else Poison("erfinv")
            if name == "cbrt":
                return Fraction(math.copysign(abs(x) ** (1 / 3), x))
            return Fraction(getattr(math, name)(x))
        except (ValueError, OverflowError):
            return Poison(name)

    def a_trunc(s, t, env):
        v = s.num(s._ev(t.a[1], env))
        return v if isinstance(v, Poison) else int(v)

    def a_idiv(s, t, env):
        a, b = s.num(s._ev(t.a[1], env)), s.num(s._ev(t.a[2], env))
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if b == 0:
            return Poison("division by zero")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q

    def a_imod(s, t, env):
        a, b = s.num(s._ev(t.a[1], env)), s.num(s._ev(t.a[2], env))
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if b == 0:
            return Poison("division by zero")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def a_at(s, t, env):
        q = s.seq(t.a[1], env)
        i = s.num(s._ev(t.a[2], env))
        if isinstance(i, Poison):
            return i
        if i != int(i) or not 0 <= i < len(q):
            return Poison("element out of range")
        return q[int(i)]

    def a_len(s, t, env):
        return len(s.seq(t.a[1], env))

    def a_first(s, t, env):
        n = s._ev(t.a[1], env)
        if isinstance(n, Poison):
            raise Skip("first")
        lim = n if n >= 0 else 2000
        for i in range(int(lim)):
            v = s.applam(t.a[2], env, i)
            if isinstance(v, Poison):
                raise Skip("first")
            if v:
                return i
        if n < 0:
            raise Skip("loop does not end")
        raise Skip("first of none")

    def a_sorted(s, t, env):
        n = s.count(t.a[1], env)
        xs = [s.applam(t.a[2], env, i) for i in range(n)]

        def lt(x, y):
            v = s.applam(t.a[3], env, x, y)
            if isinstance(v, Poison):
                raise Skip("order")
            return v

        xs.sort(key=cmp_to_key(lambda x, y: -1 if lt(x, y) else 1 if lt(y, x) else 0))
        return tuple(xs)

    def pickdistinct(s, key, n, k, skip=()):
        xs = [i for i in range(n) if i not in skip]
        xs.sort(key=lambda i: s.h(("perm", key, i)))
        v = tuple(xs[:k])
        s.inputs["sample" + str(key[2:])] = v
        return v

    def a_uniq(s, t, env):
        a = [s.arg(x, env) for x in t.a[1:]]
        if any(isinstance(x, Poison) for x in a):
            raise Skip("sample")
        n, k, ig = a[0], a[1], a[2]
        if n > 64:
            raise Skip("sample")
        return tuple(sorted(s.pickdistinct(("uniq",) + tuple(a), n, max(k, 0), (ig,))))

    def a_spos(s, t, env):
        a = [s.arg(x, env) for x in t.a[1:]]
        if any(isinstance(x, Poison) for x in a):
            raise Skip("sample")
        if a[0] > 64 or a[0] < 0 or a[1] < 0:
            raise Skip("sample")
        return tuple(sorted(s.pickdistinct(("spos",) + tuple(a), a[0], a[1])))

    def a_pq0(s, t, env):
        return ()

    def _pqbest(s, items, before, env):
        """the item no other one comes after; equal ones are told apart by nothing"""
        best = 0
        for i in range(1, len(items)):
            r = s.applam(before, env, *items[best], *items[i])
            if isinstance(r, Poison):
                raise Skip("order")
            if r:
                best = i
        return best

    def a_pqpush(s, t, env):
        q = s._ev(t.a[1], env)
        if isinstance(q, Poison):
            return q
        if len(q) > 40:
            raise Skip("long")
        return q + (tuple(s._ev(x, env) for x in t.a[3:]),)

    def a_pqpop(s, t, env):
        q = s._ev(t.a[1], env)
        if isinstance(q, Poison):
            return q
        if not q:
            return Poison("pop of an empty queue")
        i = s._pqbest(q, t.a[2], env)
        return q[:i] + q[i + 1 :]

    def a_pqtop(s, t, env):
        q = s._ev(t.a[1], env)
        if isinstance(q, Poison):
            return q
        if not q:
            return Poison("top of an empty queue")
        return q[s._pqbest(q, t.a[2], env)][t.a[3].a[0]]

    def a_expj(s, t, env):
        n, k = s._ev(t.a[1], env), s._ev(t.a[2], env)
        if isinstance(n, Poison) or isinstance(k, Poison) or n > 64:
            raise Skip("sample")
        w = tuple(s.applam(t.a[3], env, j) for j in range(n))
        rest = tuple(s.arg(x, env) for x in t.a[4:])
        return s.pickdistinct(("expj", w) + rest, n, k if k >= 0 else n)

    def a_nset(s, t, env):
        return len(set(s.seq(t.a[1], env)))

    def a_div0(s, t, env):
        return Poison("division by zero")

    def a_uninit(s, t, env):
        return Poison("indeterminate value")

    def a_fld(s, t, env):
        v = s._ev(t.a[2], env)
        if isinstance(v, tuple) and v and v[0] == "struct":
            for k, x in v[1:]:
                if k == t.a[1]:
                    return x
        if isinstance(v, Poison):
            return v
        return s.bysort(t.sort, ("fld", t.a[1], v))

    # text
    def text(s, t, env):
        v = s.seq(t, env)
        r = s.joined.get(v)
        if r is None:
            r = s.joined[v] = "".join(str(c) for c in v)
        return r

    def a_single(s, t, env):
        x = s._ev(t.a[1], env)
        if isinstance(x, Poison):
            return x
        if s.seed % 8 in (0, 2, 4):
            # a float so coarse that the tests notice what its rounding decides
            return Fraction(round(x))
        try:
            return Fraction(unpack("f", pack("f", float(x)))[0])
        except (OverflowError, ValueError):
            return Poison("float")

    def a_strid(s, t, env):
        x = t.a[1]
        v = s._ev(x, env)
        if isinstance(v, tuple) and v and v[0] == "lit":
            v = tuple(v[1])
        if not isinstance(v, tuple):
            raise Skip("strid")
        w = "".join(str(c) for c in v)
        ids = _textids()
        if w == "":
            return 1000
        if w in ids:
            return ids[w]
        return 10**6 + s.h(("strid", w)) % 10**6

    def a_text_starts_with(s, t, env):
        return s.text(t.a[1], env).startswith(s.text(t.a[2], env))

    def a_text_ends_with(s, t, env):
        return s.text(t.a[1], env).endswith(s.text(t.a[2], env))

    def a_text_compare(s, t, env):
        a, b = s.text(t.a[1], env), s.text(t.a[2], env)
        return (a > b) - (a < b)

    def a_textresize(s, t, env):
        x, n = s.text(t.a[1], env), s._ev(t.a[2], env)
        if isinstance(n, Poison):
            return n
        return tuple((x + "\0" * max(0, n - len(x)))[:n])

    def a_find(s, t, env):
        kind = t.a[1].a[0]
        x, p = s.text(t.a[2], env), s.text(t.a[3], env)
        i = s._ev(t.a[4], env)
        if isinstance(i, Poison):
            return i
        if i < 0:
            i = 1 << 64  # std::string::npos
        if kind == "find":
            r = x.find(p, i) if i <= len(x) else -1
        elif kind == "rfind":
            r = x.rfind(p) if i >= len(x) else x.rfind(p, 0, i + len(p))
        elif kind == "find_first_of":
            r = next((k for k in range(i, len(x)) if x[k] in p), -1)
        elif kind == "find_first_not_of":
            r = next((k for k in range(i, len(x)) if x[k] not in p), -1)
        elif kind == "find_last_of":
            r = next((k for k in range(min(i, len(x) - 1), -1, -1) if x[k] in p), -1)
        elif kind == "find_last_not_of":
            r = next((k for k in range(min(i, len(x) - 1), -1, -1) if x[k] not in p), -1)
        else:
            raise Skip("find")
        return r

    def a_substr(s, t, env):
        x = s.text(t.a[1], env)
        p, n = s._ev(t.a[2], env), s._ev(t.a[3], env)
        if isinstance(p, Poison) or isinstance(n, Poison):
            return Poison("substr")
        if p < 0 or p > len(x):
            return Poison("substr out of range")
        if n < 0:
            n = NPOS
        return tuple(x[int(p) : int(p) + int(n)])

    def a_lines(s, t, env):
        x = s.text(t.a[1], env).split("\n")
        return tuple(tuple(y) for y in (x[:-1] if x[-1] == "" else x))

    def a_entries(s, t, env):
        return tuple(tuple(y) for y in s.text(t.a[1], env).split(","))

    def a_charat(s, t, env):
        x = s.seq(t.a[1], env)
        i = s._ev(t.a[2], env)
        if isinstance(i, Poison):
            return i
        if i == len(x):
            return 0
        if not 0 <= i < len(x):
            return Poison("character out of range")
        return ord(x[int(i)])

    def parse(s, t, env, conv):
        x = s.text(t.a[1], env)
        import re

        m = re.match(r"\s*([+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?)" if conv == "d" else r"\s*([+-]?\d+)", x)
        if "\u27e8" in x:
            return s.bysort("r" if conv == "d" else "i", ("parse", conv, x))
        if not m:
            return Poison("not a number: " + x)
        return Fraction(m.group(1)) if conv == "d" else int(m.group(1))

    def a_stod(s, t, env):
        return s.parse(t, env, "d")

    def a_stoi(s, t, env):
        return s.parse(t, env, "i")


def _word(x):
    while isinstance(x, tuple) and len(x) == 2 and x[0] == "lit":
        x = x[1]
    return "".join(map(str, x)) if isinstance(x, tuple) else str(x)


_pieces = {}


def _text_element(x):
    """not a choice between pieces of text"""
    r = _pieces.get(x)
    if r is None:
        r = _pieces[x] = not all(y.op == "app" and (y.a[0] in ("fmt", "tostr") or y.sort == "text") or y.op == "lit" and isinstance(y.a[0], str) for y in TT.dd_leaves(x))
    return r


def _textids():
    import stdlib

    return stdlib._textid


def _plain(a):
    if isinstance(a, Fraction):
        return str(a)
    return a


def erfinv(y):
    a, b = -6.0, 6.0
    for _ in range(200):
        m = (a + b) / 2
        if math.erf(m) < y:
            a = m
        else:
            b = m
    return (a + b) / 2


def same(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if a == b:
            return True
        return abs(a - b) <= Fraction(1, 10**9) * max(1, abs(a), abs(b))
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def bits(a):
    """a number to the last digit of a double"""
    return float(a) if isinstance(a, (int, Fraction)) else a


def showval(v, n=200):
    if isinstance(v, tuple) and v and all(isinstance(c, str) and len(c) == 1 for c in v):
        r = repr("".join(v))
    elif isinstance(v, tuple):
        r = "[" + ", ".join(showval(x, 60) for x in v) + "]"
    elif isinstance(v, Fraction):
        r = f"{float(v):.6g}"
    else:
        r = str(v)
    return r if len(r) <= n else r[:n] + "..."


def undefined(x):
    """a division by zero: the normal form may have gained or lost it, so this valuation decides nothing"""
    if isinstance(x, Poison):
        return not ("out of range" in x.k or "substr" in x.k or x.k.startswith(("indeterminate", "not a number")))
    return isinstance(x, tuple) and any(undefined(y) for y in x)


def separate(a, b, cond, trials=80, deadline=None, exact=False, **kw):
    """-> (status, witness): status in separated | agree | unsettled"""
    import time

    ok = 0
    t = 0
    steps = 0
    # more of them where they are cheap
    while t < trials or (t < 20 * trials and steps < 1500000):
        if deadline and time.time() > deadline:
            break
        mx = (4, 3, 2, 6)[t % 4]
        if t:
            steps += full - v.budget
        v = Val(t, grid=(t % 2 == 1), maxsize=mx, **kw)
        full = v.budget
        t += 1
        try:
            c = v.ev(cond)
            if c is not True:
                continue
            x, y = v.ev(a), v.ev(b)
        except (Skip, RecursionError):
            continue
        if undefined(x) or undefined(y):
            continue
        ok += 1
        if not same(x, y) or exact and bits(x) != bits(y):
            return "separated", {"valuation": t - 1, "left": showval(x), "right": showval(y), "inputs": {k: showval(w, 60) for k, w in list(v.inputs.items())[:25]}}
    return ("agree" if ok else "unsettled"), {"valuations": ok}
