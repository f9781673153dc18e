"""Enclosures of a real function over ranges of its argument: interval arithmetic on Taylor expansions (an abstract domain).

A value over a cell of the argument is two expansions: one around the cell's centre with enclosures of its first N coefficients, and one
over the whole cell, of which the Nth coefficient bounds the remainder. Enclosures are exact integers in units of 2^-SHIFT, rounded
outwards, so what they show holds for every real number of the cell."""
import decimal
import math
import time
from fractions import Fraction

from terms import *
import terms as TT
import interp
from driver import Item

SHIFT = 256
ONE_ = 1 << SHIFT
N = 18


class Unsettled(Exception):
    """a quantity may be zero (or negative) where that matters"""


class Outside(Exception):
    """a construct without an enclosure"""


class NotANumber(Outside):
    """the value is infinite or no number"""


class Split(Exception):
    def __init__(s, key, options):
        s.key, s.options = key, options


# ---- intervals: pairs of integers in units of 2^-SHIFT
def iv(x):
    x = Fraction(x)
    n = x.numerator << SHIFT
    return (n // x.denominator, -(-n // x.denominator))


def iadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def ineg(a):
    return (-a[1], -a[0])


def isub(a, b):
    return (a[0] - b[1], a[1] - b[0])


def imul(a, b):
    a0, a1 = a
    b0, b1 = b
    if a0 >= 0 and b0 >= 0:
        return (a0 * b0 >> SHIFT, -(-(a1 * b1) >> SHIFT))
    p = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
    return (min(p) >> SHIFT, -(-max(p) >> SHIFT))


def idiv(a, b):
    if b[0] <= 0 <= b[1]:
        raise Unsettled("a divisor may be zero")
    if b[1] < 0:
        a, b = ineg(a), ineg(b)
    lo = (a[0] << SHIFT) // (b[1] if a[0] >= 0 else b[0])
    hi = -((-a[1] << SHIFT) // (b[0] if a[1] >= 0 else b[1]))
    return (lo, hi)


def hull(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


_dec = decimal.Context(prec=110, Emax=10**6, Emin=-(10**6))
_memo = {}


def _point(name, n):
    """an enclosure of a monotonous function at the point n / 2^SHIFT"""
    k = (name, n)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _functions[name](n)
    return r


def _via_decimal(f):
    def g(n):
        x = _dec.divide(decimal.Decimal(n), decimal.Decimal(ONE_))
        y = f(x, n)
        v = Fraction(y) * ONE_
        slack = 4 + abs(int(v)) // 10**95
        return (math.floor(v) - slack, math.ceil(v) + slack)

    return g


def _ln(x, n):
    if n <= 0:
        raise Unsettled("the argument of a logarithm may not be positive")
    return _dec.ln(x)


def _root(n):
    if n < 0:
        raise Unsettled("the argument of a root may be negative")
    r = math.isqrt(n << SHIFT)
    return (r, r + 1)


def _pi():
    def atan_inv(k, one):
        x = t = one // k
        n, sign = 3, -1
        while t:
            t //= k * k
            x += sign * (t // n)
            sign, n = -sign, n + 2
        return x

    one = 1 << (SHIFT + 40)
    p = 4 * (4 * atan_inv(5, one) - atan_inv(239, one))
    return ((p >> 40) - 2, (p >> 40) + 3)


PI = _pi()


def isqrt_(a):
    return (_point("sqrt", a[0])[0], _point("sqrt", a[1])[1])


def _erf(n):
    """2/sqrt(pi) * exp(-y^2) * sum of 2^k y^(2k+1) / (2k+1)!!, all terms positive"""
    if n < 0:
        return ineg(_erf(-n))
    if n > 12 << SHIFT:
        return (ONE_ - (ONE_ >> 180), ONE_)
    y2 = imul((n, n), (n, n))
    t = s = (n, n)
    k = 0
    while t[1] > 1 or k < 2 * (y2[1] >> SHIFT) + 4:
        k += 1
        t = idiv(imul(imul(t, y2), iv(2)), iv(2 * k + 1))
        s = iadd(s, t)
    s = (s[0], s[1] + 2 * (t[1] + 1))  # the rest is less than a geometric series of ratio one half
    r = imul(imul(TWO_OVER_ROOT_PI, iexp(ineg(y2))), s)
    return (max(r[0], 0), min(r[1], ONE_))


_functions = {
    "exp": _via_decimal(lambda x, n: _dec.exp(x)),
    "log": _via_decimal(_ln),
    "sqrt": _root,
    "erf": _erf,
}


TWO_OVER_ROOT_PI = idiv(iv(2), isqrt_(PI))


def mono(name, a):
    if name in ("erf", "log") and a[0] == a[1] == (0 if name == "erf" else ONE_):
        return (0, 0)
    lo = _point(name, a[0])[0]
    return (lo, _point(name, a[1])[1] if a[1] != a[0] else _point(name, a[0])[1])


def iexp(a):
    if a == (0, 0):
        return (ONE_, ONE_)
    if a[1] > 300 << SHIFT:
        raise Unsettled("a large exponential")
    if a[1] < -(300 << SHIFT):
        return (0, 1)
    r = mono("exp", (max(a[0], -(400 << SHIFT)), a[1]))
    return (max(r[0], 0) if a[0] > -(300 << SHIFT) else 0, r[1])


# ---- expansions: lists of intervals
def s_const(c, n):
    z = (0, 0)
    return [iv(c) if not isinstance(c, tuple) else c] + [z] * (n - 1)


def s_add(f, g):
    return [iadd(a, b) for a, b in zip(f, g)]


def s_sub(f, g):
    return [isub(a, b) for a, b in zip(f, g)]


def s_scale(f, c):
    return [imul(a, c) for a in f]


def s_mul(f, g):
    n = len(f)
    r = []
    for k in range(n):
        lo = hi = 0
        for i in range(k + 1):
            a0, a1 = f[i]
            b0, b1 = g[k - i]
            if a0 >= 0 and b0 >= 0:
                lo += a0 * b0
                hi += a1 * b1
            else:
                p = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
                lo += min(p)
                hi += max(p)
        r.append((lo >> SHIFT, -(-hi >> SHIFT)))
    return r


def s_div(f, g):
    r = []
    for k in range(len(f)):
        t = f[k]
        for i in range(1, k + 1):
            t = isub(t, imul(g[i], r[k - i]))
        r.append(idiv(t, g[0]))
    return r


def s_power(f, p):
    """f to a rational power, f positive: r' f = p f' r"""
    if p == Fraction(1, 2):
        r = [isqrt_(f[0])]
    else:
        r = [iexp(imul(iv(p), mono("log", f[0])))]
    for k in range(1, len(f)):
        t = (0, 0)
        for i in range(1, k + 1):
            t = iadd(t, imul(iv(p * i - (k - i)), imul(f[i], r[k - i])))
        r.append(idiv(t, imul(iv(k), f[0])))
    return r


def s_integrate(d, first):
    return [first] + [idiv(d[k], iv(k + 1)) for k in range(len(d) - 1)]


def s_derive(f):
    return [imul(iv(k), f[k]) for k in range(1, len(f))]


def s_exp(f):
    r = [iexp(f[0])]
    for k in range(1, len(f)):
        t = (0, 0)
        for i in range(1, k + 1):
            t = iadd(t, imul(iv(i), imul(f[i], r[k - i])))
        r.append(idiv(t, iv(k)))
    return r


def s_log(f):
    d = s_derive(f) + [(0, 0)]
    return s_integrate(s_div(d, f), mono("log", f[0]))


def s_erf(f):
    """the derivative is 2/sqrt(pi) f' exp(-f^2)"""
    g = s_exp([ineg(a) for a in s_mul(f, f)])
    d = s_scale(s_mul(s_derive(f) + [(0, 0)], g), TWO_OVER_ROOT_PI)
    return s_integrate(d, mono("erf", f[0]))


def s_erfc(f):
    return s_sub(s_const(1, len(f)), s_erf(f))


SERIES = {"exp": s_exp, "log": s_log, "erf": s_erf, "erfc": s_erfc,
          "log1p": lambda f: s_log(s_add(f, s_const(1, len(f)))), "expm1": lambda f: s_sub(s_exp(f), s_const(1, len(f)))}


def tighter(pair, half):
    """the expansion over the cell, each coefficient also by the expansion around the centre: naive enclosures of sums that cancel are wide"""
    p, r = pair
    n = len(p)
    pw = [(ONE_, ONE_)]
    for k in range(n):
        m = max(abs(x) for x in imul(pw[-1], (-half, half)))
        pw.append((-m, m))
    out = []
    for k in range(n):
        t = p[k]
        for j in range(k + 1, n):
            x = imul(p[j], pw[j - k])
            b = math.comb(j, k)
            t = (t[0] + b * x[0], t[1] + b * x[1])
        x = imul(r[n], pw[n - k])
        b = math.comb(n, k)
        t = (t[0] + b * x[0], t[1] + b * x[1])
        out.append((max(t[0], r[k][0]), min(t[1], r[k][1])))
    return out + [r[n]]


class Cell:
    """the value of a term with one input over a cell"""

    def __init__(s, arg, chosen, budget, half=None):
        # arg: (expansion at the centre, expansion over the cell) of the input
        s.arg, s.chosen, s.memo, s.budget, s.half = arg, chosen, {}, budget, half

    def ev(s, t):
        r = s.memo.get(t)
        if r is None:
            if time.time() > s.budget:
                raise Outside("time")
            r = s._ev(t)
            r = s.memo[t] = (r[0], tighter(r, s.half)) if t.op == "poly" and s.half is not None else r
        return r

    def both(s, f, *xs):
        return tuple(f(*[x[i] for x in xs]) for i in (0, 1))

    def sign(s, t, options=(-1, 0, 1)):
        """sign of a term over the whole cell: -1, 0, 1, or the cases are told apart"""
        if t in s.chosen:
            return s.chosen[t]
        lo, hi = s.ev(t)[1][0]
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == hi == 0:
            return 0
        raise Split(t, options)

    def _ev(s, t):
        if t.op == "poly":
            n0, n1 = len(s.arg[0]), len(s.arg[1])
            r = (s_const(0, n0), s_const(0, n1))
            for m, c in t.a[0]:
                x = None
                for a, e in m:
                    p = s.power(a, e)
                    x = p if x is None else s.both(s_mul, x, p)
                ic = iv(c)
                x = (s_const(ic, n0), s_const(ic, n1)) if x is None else s.both(lambda f: s_scale(f, ic), x)
                r = s.both(s_add, r, x)
            return r
        if t.op == "cmp":
            k = s.sign(t.a[0], (-1, 1) if t.a[2] is t.a[1] or t.a[2] is t.a[3] else (-1, 0, 1))
            return s.ev(t.a[2 + k])
        if t.op == "app":
            nm = t.a[0] if isinstance(t.a[0], str) else str(t.a[0])
            if nm == "in":
                return s.arg
            if nm == "pos":
                k = s.sign(t.a[1], (-1, 1))
                return s.ev(t.a[1]) if k > 0 else (s_const(0, len(s.arg[0])), s_const(0, len(s.arg[1])))
            if nm in SERIES:
                return s.both(SERIES[nm], s.ev(t.a[1]))
            if nm == "pow":
                p = cval(t.a[2])
                if p is None:
                    raise Outside("a power")
                return s.both(lambda f: s_power(f, p), s.ev(t.a[1]))
            if nm == "limit":
                raise NotANumber(nm)
            raise Outside(nm)
        raise Outside(t.op)

    def power(s, a, e):
        k = ("^", a, e)
        r = s.memo.get(k)
        if r is None:
            if e == 1:
                r = s.ev(a)
            elif e == -1:
                r = s.both(lambda f: s_div(s_const(1, len(f)), f), s.ev(a))
            elif e < 0:
                r = s.both(lambda f: s_div(s_const(1, len(f)), f), s.power(a, -e))
            elif e % 2:
                r = s.both(s_mul, s.power(a, e - 1), s.ev(a))
            else:
                h = s.power(a, e // 2)
                r = s.both(s_mul, h, h)
            s.memo[k] = r
        return r


def bound(pair, half, first=0):
    """enclosure over the cell of half width `half` (first=1: of the derivative)"""
    p, r = pair
    if first:
        p, r = s_derive(p), s_derive(r)
    n = len(p)
    h, pw, out = (-half, half), (ONE_, ONE_), (0, 0)
    for k in range(n):
        out = iadd(out, imul(p[k], pw))
        pw = imul(pw, h)
    # the remainder's factor is (x - c)^n of either sign
    m = max(abs(pw[0]), abs(pw[1]))
    return iadd(out, imul(r[n], (-m, m)))


def argument(lo, hi, sign, tail, orders=(N, N + 1)):
    """expansions of the argument at the centre and over the cell [lo, hi] of x, or of t with x = 1 - exp(-t), times sign"""
    c, X = iv((lo + hi) / 2), (iv(lo)[0], iv(hi)[1])
    c = (c[0], c[0])
    out = []
    for x0, n in zip((c, X), orders):
        v = ([x0, (ONE_, ONE_)] + [(0, 0)] * (n - 2))[:n]
        e = None
        if tail:
            e = s_exp([ineg(a) for a in v])
            v = s_sub(s_const(1, n), e)
        if sign < 0:
            v = [ineg(a) for a in v]
        out.append((v, e))
    half = max(X[1] - c[0], c[0] - X[0]) + 1
    return (out[0][0], out[1][0]), (out[0][1], out[1][1]), half


def holds(term, lo, hi, sign, tail, eps, chosen, budget):
    """whether the true value lies within eps (relative) of the term over the whole cell, on the chosen side of undetermined conditions"""
    arg, e, half = argument(lo, hi, sign, tail)
    f = Cell(arg, chosen, budget, half).ev(term)
    for k in (1, -1):
        g = tuple(s_scale(x, iv(1 + k * eps)) for x in f)
        if sign < 0:
            g = tuple([ineg(a) for a in x] for x in g)
        # g approximates the inverse at |x|, from above for k = 1
        if tail:
            # erfc(g) < exp(-t) for k = 1
            d = tuple(s_sub(s_div(s_erfc(x), ee), s_const(1, len(x))) for x, ee in zip(g, e))
            b = bound(d, half)
            if not (b[1] < 0 if k > 0 else b[0] > 0):
                return False
        else:
            d = tuple(s_sub(s_erf(x), [ineg(a) for a in v] if sign < 0 else v) for x, v in zip(g, arg))
            if lo <= 0:
                # zero at zero, and on either side the derivative decides
                z = Cell(argument(Fraction(0), Fraction(0), sign, tail, (1, 1))[0], chosen, budget).ev(term)[0][0]
                if z != (0, 0):
                    return False
                b = bound(d, half, 1)
            else:
                b = bound(d, half)
            if not (b[0] > 0 if k > 0 else b[1] < 0):
                return False
    return True


def fails(term, x, sign, tail, eps, budget):
    """whether the term certainly is further than eps from the true value at the point, with the value it has there"""
    arg, e, half = argument(x, x, sign, tail, (1, 1))
    val = lambda a: float(Fraction(a[0] + a[1], 2 * ONE_)) * sign
    xv = val(arg[0][0]) if sign > 0 else -val(arg[0][0])
    try:
        f = Cell(arg, {}, budget).ev(term)[0][0]
    except (Split, Unsettled):
        return None
    except NotANumber:
        return {"inputs": {"x": xv}, "why": "the value there is infinite or no number"}
    if sign < 0:
        f = ineg(f)
    over = imul(f, iv(1 - eps))  # still above the true value?
    under = imul(f, iv(1 + eps))
    if tail:
        t = e[0][0]
        far = isub((ONE_, ONE_), mono("erf", over))[1] < t[0] or isub((ONE_, ONE_), mono("erf", under))[0] > t[1]
    else:
        v = arg[0][0] if sign > 0 else ineg(arg[0][0])
        far = mono("erf", over)[0] > v[1] or mono("erf", under)[1] < v[0]
    if not far:
        return None
    return {"inputs": {"x": xv}, "left": val(f), "why": f"the inverse error function there is not within a relative {float(eps):g} of this value"}


class Alone(Exception):
    """one point within the cell has no value"""


def crosses(cond, lo, hi, sign, tail, chosen, budget):
    """whether a condition changes sign between the ends of a cell"""
    chosen = {k: v for k, v in chosen.items() if k is not cond}
    e = [Cell(argument(x, x, sign, tail, (1, 1))[0], chosen, budget).ev(cond)[0][0] for x in (lo, hi)]
    return e[0][1] < 0 < e[1][0] or e[1][1] < 0 < e[0][0]


def only_at_zero(cond, hi, sign, chosen, budget):
    """whether a condition vanishes at zero and nowhere else in the cell"""
    chosen = {k: v for k, v in chosen.items() if k is not cond}
    if Cell(argument(Fraction(0), Fraction(0), sign, False, (1, 1))[0], chosen, budget).ev(cond)[0][0] != (0, 0):
        return False
    lo, hi = Cell(argument(Fraction(0), hi, sign, False, (2, 2))[0], chosen, budget).ev(cond)[1][1]
    return lo > 0 or hi < 0


def cases(term, lo, hi, sign, tail, eps, chosen, budget):
    try:
        return holds(term, lo, hi, sign, tail, eps, chosen, budget)
    except Split as sp:
        for o in sp.options:
            more = {**chosen, sp.key: o}
            if o == 0 and lo <= 0 and not tail and only_at_zero(sp.key, hi, sign, more, budget):
                if Cell(argument(Fraction(0), Fraction(0), sign, tail, (1, 1))[0], more, budget).ev(term)[0][0] != (0, 0):
                    return False
            else:
                try:
                    if not cases(term, lo, hi, sign, tail, eps, more, budget):
                        return False
                except NotANumber:
                    if o == 0 and crosses(sp.key, lo, hi, sign, tail, chosen, budget):
                        raise Alone()
                    raise
        return True
    except Unsettled:
        return False


def region(r, label, loc, term, lo, hi, width, sign, tail, eps, budget):
    """every cell of the region, halved until decided"""
    todo = []
    x = lo
    while x < hi:
        todo.append((x, min(x + width, hi)))
        x += width
    done = 0
    try:
        while todo:
            a, b = todo.pop()
            try:
                if cases(term, a, b, sign, tail, eps, {}, budget):
                    done += 1
                    continue
            except NotANumber:
                pass
            except Alone as at:
                w = {"inputs": {"x or t": f"between {float(a)} and {float(b)}"}, "why": "the value where a condition of the code holds is infinite or no number"}
                r.items.append(Item(label, loc, "violated", "the value at a point lies outside the enclosure of the true one", w))
                return
            for x in (a, (a + b) / 2):
                w = fails(term, x, sign, tail, eps, budget) if x > 0 or tail else None
                if w:
                    r.items.append(Item(label, loc, "violated", "the value at a point lies outside the enclosure of the true one", w))
                    return
            if b - a < width / 2**14:
                r.items.append(Item(label, loc, "undecided", f"not settled near {float(a)}"))
                return
            else:
                m = (a + b) / 2
                todo += [(m, b), (a, m)]
    except Outside as x:
        r.items.append(Item(label, loc, "undecided", f"no enclosure: {x}"))
        return
    r.items.append(Item(label, loc, "discharged", f"enclosed by Taylor expansions over {done} cells", {"cells": done}))


EPS = Fraction(2, 10**15)
REGIONS = [(Fraction(0), Fraction(1, 2), Fraction(1, 16), False), (Fraction(1, 2), Fraction(7, 8), Fraction(1, 32), False),
           (Fraction(2), Fraction(9), Fraction(1, 3), True), (Fraction(9), Fraction(23), Fraction(1, 2), True), (Fraction(23), Fraction(37), Fraction(1, 2), True)]


def inverse(r, name, summarise):
    """the accuracy of the value in the harness' first obligation"""
    fns = r.P.find("spec::" + name)
    if not fns or fns[0].tu in r.P.broken:
        r.items.append(Item(name, "spec", "undecided", "the harness does not fit the code's interface any more"))
        return
    I = interp.Interp(r.P, summarise, deadline=time.time() + 100)
    try:
        I.call(fns[0], None, [], None)
        (label, a, b, path, ctx, loc), = I.obls
    except Exception as x:
        r.items.append(Item(name, "spec", "undecided", f"analysis gave up: {type(x).__name__} {x}"))
        return
    r.note_interp(I, name)
    at = [r.P.loc(fn) for fn in I.visited.values() if fn.q.endswith("erfinv")]
    loc = at[0] if at else loc
    budget = time.time() + r.left() - 20

    def job(lo, hi, width, tail, sign):
        of = ("1 - exp(-t), t" if tail else "x") if sign > 0 else ("exp(-t) - 1, t" if tail else "-x")
        return lambda r: region(r, f"accuracy for {of} in [{float(lo):g}, {float(hi):g}]", loc, a, lo, hi, width, sign, tail, EPS, budget)

    r.fork([job(lo, hi, w, tail, sign) for lo, hi, w, tail in REGIONS for sign in (1, -1)])
