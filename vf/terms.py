"""Hash-consed value terms and their normal form.

A value is a T.  Scalars are polynomials with rational coefficients over atoms; conditionals are ordered decision
diagrams ('cmp' nodes test the sign of a polynomial three ways, 'br' nodes test a boolean atom) whose leaves are
scalars, TRUE/FALSE or other values; vectors and strings are comprehension trees (sfor/sif/selem/scat/svar); structs
are field tuples.  Two equal terms are the same Python object.
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)


class TooBig(Exception):
    pass


class T:
    __slots__ = ("op", "a", "id", "fs", "h", "unk", "sort")

    def __repr__(self):
        return show(self)


_table = {}
_stats = {"nodes": 0}
EMPTY = frozenset()
LIMIT = 3_000_000


def mk(op, *a, sort="v"):
    key = (op, a, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.sort = sort
    t.id = len(_table)
    if t.id > LIMIT:
        raise TooBig()
    fs = None
    h = 0
    unk = False
    stack = [a]
    acc = []
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.fs:
                acc.append(x.fs)
            if x.h > h:
                h = x.h
            if x.unk:
                unk = True
        elif isinstance(x, tuple):
            stack.extend(x)
    if op == "sym":
        acc.append(frozenset([t]))
    elif op in ("cv", "scv"):
        acc.append(frozenset([a[0]]))
    elif op == "app" and isinstance(a[0], str) and a[0].startswith("?"):
        unk = True
    if not acc:
        t.fs = EMPTY
    elif len(acc) == 1:
        t.fs = acc[0]
    else:
        t.fs = frozenset().union(*acc)
    if op in BINDERS:
        h += 1
    if op == "fold":
        h += 1
        bound = {e[0] for e in a[2]}
        if any(x in bound for x in t.fs if isinstance(x, str)):
            t.fs = frozenset(x for x in t.fs if x not in bound)
    t.h = h
    t.unk = unk
    _table[key] = t
    return t


# ops that bind bv(h) in their last argument
BINDERS = {"sum", "any", "maxred", "minred", "prod", "sfor", "lam"}


def lit(v):
    return mk("lit", v)


TRUE = mk("true", sort="b")
FALSE = mk("false", sort="b")


def const(v):
    v = Fraction(v)
    if v == 0:
        return ZERO
    return mk("poly", (((), v),), sort="i" if v.denominator == 1 else "r")


ZERO = mk("poly", (), sort="i")
ONE = const(1)

_symctr = [0]
_range = {}  # sym -> upper bound term (0 <= sym < hi) or None
_bounds = {}  # app atom -> (lo, hi) constant bounds


def fresh(hint="x", hi=None, sort="i"):
    _symctr[0] += 1
    s = mk("sym", f"{hint}{_symctr[0]}", sort=sort)
    _range[s] = hi
    return s


def bv(k, sort="i"):
    return mk("bv", k, sort=sort)


def is_bool(t):
    return t.sort == "b"


def is_int(t):
    return t.sort in ("i", "u")


def app(name, *args, sort="r"):
    return mk("app", name, *args, sort=sort)


# ------------------------------------------------------------------ decision diagrams


def is_dd(t):
    return t.op == "cmp" or t.op == "br"


def top(t):
    return t.a[0].id if (t.op == "cmp" or t.op == "br") else 1 << 60


_ite_memo = {}


def _sort_join(xs):
    ss = {x.sort for x in xs}
    if len(ss) == 1:
        return ss.pop()
    if ss <= {"i", "u"}:
        return "i"
    if ss <= {"i", "u", "r"}:
        return "r"
    if "b" in ss and len(ss) > 1:
        return "v"
    return "v"


def _mkcmp(q, lt, eq, gt):
    if lt is eq and eq is gt:
        return lt
    # max/min/abs recognition on numeric leaves
    if lt.op in NUM and gt.op in NUM and eq.op in NUM and (lt is not gt):
        d = sub(gt, lt)
        r = _ratio(d, q)
        if r is not None and (eq is lt or eq is gt or _eqmod(eq, lt, q)):
            return add(lt, scale(pos(q), r))
    return mk("cmp", q, lt, eq, gt, sort=_sort_join((lt, eq, gt)))


NUM = {"poly", "app", "sym", "bv", "sum", "cv", "maxred", "minred", "prod", "fold"}


def _eqmod(e, l, q):
    d = sub(e, l)
    return _ratio(d, q) is not None


def _ratio(d, q):
    """d == r*q with r rational constant, else None"""
    d = as_poly(d)
    q = as_poly(q)
    if len(d) != len(q) or not d:
        return None
    r = None
    for (m1, c1), (m2, c2) in zip(d, q):
        if m1 != m2:
            return None
        k = c1 / c2
        if r is None:
            r = k
        elif r != k:
            return None
    return r


def ite3(q, lt, eq, gt):
    """q normalised polynomial (leading coefficient 1), not decidable"""
    key = ("3", q, lt, eq, gt)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if lt is eq and eq is gt:
        return lt
    m = min(top(lt), top(eq), top(gt))
    if m > q.id:
        # integer canonicalisation: use the strict form
        if lt is eq and is_int(q):
            q1 = sub(q, ONE)
            r = sign3(q1, lt, gt, gt)
        else:
            r = _mkcmp(q, lt, eq, gt)
    elif m == q.id:
        r = ite3(q, cof(lt, q, 0), cof(eq, q, 1), cof(gt, q, 2))
    else:
        v, n = None, 3
        for x in (lt, eq, gt):
            if top(x) == m:
                v = x.a[0]
                n = 3 if x.op == "cmp" else 2
                break
        ch = [ite3(q, cof(lt, v, i), cof(eq, v, i), cof(gt, v, i)) for i in range(n)]
        r = rebuild(v, n, ch)
    _ite_memo[key] = r
    return r


def rebuild(v, n, ch):
    return ite3(v, *ch) if n == 3 else br(v, *ch)


def br(v, f, t):
    if f is t:
        return f
    key = ("2", v, f, t)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    m = min(top(f), top(t))
    if m > v.id:
        r = mk("br", v, f, t, sort=_sort_join((f, t)))
    elif m == v.id:
        r = br(v, cof(f, v, 0), cof(t, v, 1))
    else:
        w, n = None, 3
        for x in (f, t):
            if top(x) == m:
                w = x.a[0]
                n = 3 if x.op == "cmp" else 2
                break
        ch = [br(v, cof(f, w, i), cof(t, w, i)) for i in range(n)]
        r = rebuild(w, n, ch)
    _ite_memo[key] = r
    return r


def cof(t, v, i):
    if (t.op == "cmp" or t.op == "br") and t.a[0] is v:
        return t.a[1 + i]
    return t


_prune_memo = {}


import math


_facts_memo = {}


def _whole(x):
    """x, as an int if it is one"""
    return x if type(x) is int else int(x) if x == int(x) else x


def more_facts(facts, q, i):
    """facts with outcome i of the comparison of q with 0 added; None if they contradict it"""
    if not is_int(q):
        return facts
    key = (facts, q, i)
    r = _facts_memo.get(key, NONE)
    if r is NONE:
        r = _facts_memo[key] = _more_facts(facts, q, i)
    return r


def _more_facts(facts, q, i):
    c0 = 0
    rest = {}
    for m, c in as_poly(q):
        if m == ():
            c0 = c
        else:
            rest[m] = c
    if not rest:
        return facts if i == (c0 > 0) - (c0 < 0) + 1 else None
    base, k = _lead(poly(rest))
    if base is None:
        return facts
    c0 = _whole(Fraction(c0) / k)
    if k < 0:
        i = 2 - i
    d = dict(facts)
    lo, hi, ne = d.get(base, (0 if is_nonneg(base) else None, None, ()))
    b = -c0
    if i == 0:
        h = math.ceil(b) - 1
        hi = h if hi is None else min(hi, h)
    elif i == 2:
        l = math.floor(b) + 1
        lo = l if lo is None else max(lo, l)
    else:
        if b != int(b) or (lo is not None and lo > b) or (hi is not None and hi < b) or b in ne:
            return None
        lo = hi = int(b)
    if lo is not None and hi is not None and lo > hi:
        return None
    d[base] = (lo, hi, ne)
    # two bounds together against a third
    for other, (lo2, hi2, _n) in facts:
        if other is base:
            continue
        for neg in (False, True):
            l2, h2 = (lo2, hi2) if not neg else (None if hi2 is None else -hi2, None if lo2 is None else -lo2)
            l3 = None if lo is None or l2 is None else lo + l2
            h3 = None if hi is None or h2 is None else hi + h2
            if l3 is None and h3 is None:
                continue
            third, c3, sg3, info = _combine(base, other, neg)
            if third is None:
                if (l3 is not None and l3 > c3) or (h3 is not None and h3 < c3):
                    return None
                continue
            # sg3 * third + c3 in [l3, h3]
            if third is NONE:
                continue
            if info is None and third not in d:
                continue
            if sg3 == 1:
                l3, h3 = None if l3 is None else l3 - c3, None if h3 is None else h3 - c3
            else:
                l3, h3 = None if l3 is None else _whole(Fraction(l3 - c3) / sg3), None if h3 is None else _whole(Fraction(h3 - c3) / sg3)
            if sg3 < 0:
                l3, h3 = h3, l3
            if third in d:
                l4, h4, _m = d[third]
            elif info is True:
                l4, h4 = 0, None
            else:
                y, k = info
                # the numbers in the sample compare as the positions do
                l5 = None if l3 is None else 1 if l3 > 0 else 0 if l3 == 0 else None
                h5 = None if h3 is None else -1 if h3 < 0 else 0 if h3 == 0 else None
                if k < 0:
                    l5, h5 = None if h5 is None else -h5, None if l5 is None else -l5
                l4, h4, m4 = d.get(y, (0 if is_nonneg(y) else None, None, ()))
                l5 = l4 if l5 is None else l5 if l4 is None else max(l4, l5)
                h5 = h4 if h5 is None else h5 if h4 is None else min(h4, h5)
                if l5 is not None and h5 is not None and l5 > h5:
                    return None
                if l5 is not None or h5 is not None:
                    d[y] = (l5, h5, m4)
                continue
            if (l3 is not None and h4 is not None and l3 > h4) or (h3 is not None and l4 is not None and h3 < l4):
                return None
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


_comb_memo = {}
NONE = object()


def _lead(q):
    """(base, k) with q = k * base, base with integer coefficients and leading coefficient 1; base None if there is none"""
    base, sg = normq(q)
    p, b = as_poly(q), as_poly(base)
    if any(Fraction(c).denominator != 1 for _m, c in b):
        return None, 1
    k = Fraction(p[0][1]) / Fraction(b[0][1])
    return base, k




def _combine(a, b, neg):
    """a + b or a - b as (base, constant, sign); base None when constant"""
    key = (a, b, neg)
    r = _comb_memo.get(key)
    if r is None:
        t = sub(a, b) if neg else add(a, b)
        c0, rest = 0, {}
        for m, c in as_poly(t):
            if m == ():
                c0 = c
            else:
                rest[m] = c
        if not rest:
            r = (None, _whole(c0), 1, None)
        else:
            x, k = _lead(poly(rest))
            info = None
            if x is not None:
                if is_nonneg(x):
                    info = True
                else:
                    y = in_order(x)
                    y = _lead(y) if y is not None else (None, 1)
                    info = y if y[0] is not None else None
            r = (NONE if x is None else x, _whole(c0), _whole(k), info)
        _comb_memo[key] = r
    return r


def prune(t, facts=(), plain=True):
    """t without the outcomes that contradict the integer comparisons above them (P + c for one P and several constants c)"""
    if not is_dd(t):
        if t.op == "poly" or t.op in NUM:
            for base, (lo, hi, ne) in facts:
                if lo is not None and lo == hi and any(x is base and True for mm, _ in as_poly(t) for x, _e in mm):
                    r = ZERO
                    for mm, cc in as_poly(t):
                        k, rest = cc, []
                        for x, e in mm:
                            if x is base and e > 0 and int(e) == e:
                                k = k * (lo ** int(e))
                            else:
                                rest.append((x, e))
                        r = add(r, poly({tuple(rest): k}))
                    t = r
        return t
    key = (t, facts, plain)
    r = _prune_memo.get(key)
    if r is not None:
        return r
    q = t.a[0]
    if t.op == "br" or not is_int(q):
        r = rebuild(q, len(t.a) - 1, [prune(c, facts, plain) for c in t.a[1:]])
        _prune_memo[key] = r
        return r
    outs = []
    for k in range(3):
        f = more_facts(facts, q, k)
        outs.append(None if f is None else prune(t.a[1 + k], f, plain))
    live = [x for x in outs if x is not None]
    if len(live) > 1 and not plain and is_int(q):
        # an outcome that another one agrees with where it holds needs no test of its own
        for k in (0, 2, 1):
            for j in (2, 0, 1):
                if j != k and outs[k] is not None and outs[j] is not None and outs[j] is not outs[k] and is_dd(outs[j]):
                    if prune(outs[j], more_facts(facts, q, k), True) is outs[k]:
                        outs[k] = outs[j]
    if not live:
        r = t
    else:
        # an impossible outcome takes the value of a possible one
        fill = outs[1] if outs[1] is not None else live[0]
        outs = [fill if x is None else x for x in outs]
        r = rebuild(q, 3, outs)
    _prune_memo[key] = r
    return r


_unpos_memo = {}


_given_memo = {}


def _tests(c, out):
    if is_dd(c) and c not in out:
        out[c] = 1
        out[c.a[0]] = 1
        for x in c.a[1:]:
            _tests(x, out)
    return out


def given(t, c):
    """t where c holds (elsewhere anything), without the tests that c settles"""
    if is_dd(t) and t.sort == "b" and is_dd(c):
        ts = _tests(c, {})
        for x in dd_leaves(t):
            if x.op in ("app", "cv", "sym", "fold") and x in ts:
                t = br(x, lift_any(lambda l: FALSE if l is x else l, t), lift_any(lambda l: TRUE if l is x else l, t))
    return _given(t, c)


def _given(t, c):
    if c is TRUE or c is FALSE:
        return t
    if t.op in ("scat", "sif"):
        if t.op == "scat":
            return scat([_given(x, c) for x in t.a])
        return sif(_given(t.a[0], c), _given(t.a[1], c))
    if not is_dd(c):
        c = br(c, FALSE, TRUE)
    if not is_dd(t):
        if t.sort == "b" and t.op in ("app", "cv", "sym", "fold"):
            if and_(c, t) is FALSE:
                return FALSE
            if and_(c, not_(t)) is FALSE:
                return TRUE
        return t
    key = (t, c)
    r = _given_memo.get(key)
    if r is not None:
        return r
    m, n = top(c), top(t)
    if m < n:
        e = c.a[1]
        for x in c.a[2:]:
            e = or_(e, x)
        r = _given(t, e)
    elif m == n:
        ch = [None if y is FALSE else _given(x, y) for x, y in zip(t.a[1:], c.a[1:])]
        live = [x for x in ch if x is not None]
        fill = ch[1] if ch[1] is not None else live[0]
        r = rebuild(t.a[0], len(ch), [fill if x is None else x for x in ch])
    else:
        r = rebuild(t.a[0], len(t.a) - 1, [_given(x, c) for x in t.a[1:]])
    _given_memo[key] = r
    return r


def unpos_pair(t, depth=0):
    """a pair of numbers with pos( x ) in them, by cases of the sign of x"""
    a, b = t.a
    if a is b or depth > 3 or a.op not in NUM or b.op not in NUM:
        return t
    for w in (a, b):
        for m, c in as_poly(w):
            for x, e in m:
                if x.op == "app" and x.a[0] == "pos" and x.a[1].op in NUM:
                    def put(v):
                        return unpos_pair(mk("pair", replace_terms(a, {x: v}), replace_terms(b, {x: v})), depth + 1)

                    lo = put(ZERO)
                    return sign3(x.a[1], lo, lo, put(x.a[1]))
    return t


def unpos(t):
    """integer comparisons with pos( x ) in them, by cases of the sign of x"""
    if not is_dd(t):
        return t
    r = _unpos_memo.get(t)
    if r is not None:
        return r
    q = t.a[0]
    ch = [unpos(c) for c in t.a[1:]]
    r = _unpos(q, ch) if len(ch) == 3 and is_int(q) else rebuild(q, len(ch), ch)
    _unpos_memo[t] = r
    return r


def _unpos(q, ch, depth=0):
    if depth < 4 and q.op in NUM:
        for m, c in as_poly(q):
            for x, e in m:
                if x.op == "app" and x.a[0] == "pos" and is_int(x.a[1]):
                    def put(v):
                        d = ZERO
                        for mm, cc in as_poly(q):
                            f = const(cc)
                            for y, ee in mm:
                                f = mul(f, powi(v if y is x else y, ee) if ee > 0 else inv(powi(v if y is x else y, -ee)))
                            d = add(d, f)
                        return d
                    lo, hi = _unpos(put(ZERO), ch, depth + 1), _unpos(put(x.a[1]), ch, depth + 1)
                    return sign3(x.a[1], lo, lo, hi)
    return sign3(q, *ch)


_restrict_memo = {}


def restrict(t, v, i):
    """the decision diagram t with test v fixed to its i-th outcome (anywhere in the diagram)"""
    if not is_dd(t):
        return t
    key = (t, v, i)
    r = _restrict_memo.get(key)
    if r is None:
        if t.a[0] is v:
            r = restrict(t.a[1 + i], v, i)
        else:
            r = rebuild(t.a[0], len(t.a) - 1, [restrict(c, v, i) for c in t.a[1:]])
        _restrict_memo[key] = r
    return r


def dd_tests(t, acc=None):
    if acc is None:
        acc = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or not is_dd(x):
            continue
        seen.add(x)
        acc[x.a[0]] = len(x.a) - 1
        st.extend(x.a[1:])
    return acc


def dd_leaves(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_dd(x):
            st.extend(x.a[1:])
        else:
            out.append(x)
    return out


def normq(q):
    """(normalised, sign) for polynomial q: leading coefficient 1"""
    p = as_poly(q)
    c = p[0][1] if p[0][0] != () or len(p) == 1 else p[1][1]
    # lead = first non-constant monomial
    for m, k in p:
        if m != ():
            c = k
            break
    k = 1 / c
    n = poly({m: v * k for m, v in p})
    return n, (1 if c > 0 else -1)


def in_order(q):
    """q is the difference of two positions of a sample that keeps the order: the difference of their numbers in the sample"""
    p = as_poly(q)
    if len(p) == 2 and p[0][1] == -p[1][1] and len(p[0][0]) == 1 and len(p[1][0]) == 1 and p[0][0][0][1] == p[1][0][0][1] == 1:
        x, y = p[0][0][0][0], p[1][0][0][0]
        if x.op == "app" and x.a[0] == "at" and y.op == "app" and y.a[0] == "at" and x.a[1] is y.a[1] and x.a[1].op == "sopq":
            z = x.a[1].a[0]
            if z.op == "app" and z.a[0] == "spos":
                return scale(sub(x.a[2], y.a[2]), p[0][1])
    return None


def sign3(q, lt, eq, gt):
    """lt if q<0, eq if q=0, gt if q>0.  q may be a decision diagram"""
    if is_dd(q):
        return rebuild(q.a[0], len(q.a) - 1, [sign3(c, cof(lt, q.a[0], i), cof(eq, q.a[0], i), cof(gt, q.a[0], i)) for i, c in enumerate(q.a[1:])])
    if lt is eq and eq is gt:
        return lt
    if q.op not in NUM:
        return ite_b(app("?sign", q, sort="b"), lt, gt)
    p = as_poly(q)
    if not p:
        return eq
    if len(p) == 1 and p[0][0] == ():
        return lt if p[0][1] < 0 else gt
    if len(p) == 2:
        x = in_order(q)
        if x is not None:
            return sign3(x, lt, eq, gt)
    n, s = normq(q)
    if s < 0:
        lt, gt = gt, lt
    lo = is_nonneg(n)
    hi = is_nonneg(neg(n))
    if lo and hi:
        return eq
    if is_int(n) or _intlike(n):
        if lo and is_nonneg(sub(n, ONE)):
            return gt
        if hi and is_nonneg(sub(neg(n), ONE)):
            return lt
    else:
        if lo and is_positive(n):
            return gt
        if hi and is_positive(neg(n)):
            return lt
    if lo:
        lt = eq
    if hi:
        gt = eq
    if lt is eq and eq is gt:
        return lt
    if lt is eq and is_int(n) and not lo:
        return sign3(sub(n, ONE), lt, gt, gt)
    if lt is eq and is_int(n):
        return _ite3b(sub(n, ONE), lt, gt, gt)
    if eq is gt and is_int(n) and hi is False and is_nonneg(sub(neg(n), const(-1))):
        # n <= 1 ... nothing to do
        pass
    if is_int(n):
        # two-valued: n in {-1,0}
        pass
    return ite3(n, lt, eq, gt)


def _ite3b(q, lt, eq, gt):
    n, s = normq(q)
    if s < 0:
        lt, gt = gt, lt
    if not as_poly(q) or as_poly(q)[0][0] == () and len(as_poly(q)) == 1:
        return sign3(q, lt, eq, gt)
    if is_nonneg(n) and is_nonneg(neg(n)):
        return eq
    return ite3(n, lt, eq, gt)


def _intlike(n):
    return n.sort in ("i", "u")


# --- booleans


def ite_b(c, t, f):
    """c boolean atom (not dd)"""
    return br(c, f, t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "noval":
        return b
    if b.op == "noval":
        return a
    if c.unk and c.op == "app" and c.sort != "b":
        c = app("?truth", c, sort="b")
    # structured values
    if a.op == "struct" and b.op == "struct" and len(a.a) == len(b.a):
        da = dict(a.a[0])
        db = dict(b.a[0])
        if da.keys() == db.keys():
            return struct({k: ite(c, da[k], db[k]) for k in da})
    if is_seq(a) or is_seq(b):
        if (is_seq(a) or a.op == "lit") and (is_seq(b) or b.op == "lit"):
            return seq_ite(c, as_seq(a), as_seq(b))
    key = ("ite", c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op == "cmp":
        q = c.a[0]
        r = ite3_gen(q, *[ite(x, cof(a, q, i), cof(b, q, i)) for i, x in enumerate(c.a[1:])])
    elif c.op == "br":
        q = c.a[0]
        r = br(q, *[ite(x, cof(a, q, i), cof(b, q, i)) for i, x in enumerate(c.a[1:])])
    else:
        r = br(c, b, a)
    _ite_memo[key] = r
    return r


def ite3_gen(q, lt, eq, gt):
    return ite3(q, lt, eq, gt)


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def lt_(a, b):
    return sign3(sub(a, b), TRUE, FALSE, FALSE)


def le_(a, b):
    return sign3(sub(a, b), TRUE, TRUE, FALSE)


def eq_(a, b):
    if a is b:
        return TRUE
    if is_bool(a) and is_bool(b):
        return ite(a, b, not_(b))
    return sign3(sub(a, b), FALSE, TRUE, FALSE)


def b2i(c):
    return ite(c, ONE, ZERO)


_lift_memo = {}


def lift(tag, f, *args):
    """apply f at the leaves of decision diagrams args"""
    if not any(is_dd(x) for x in args):
        return f(*args)
    key = (tag, args)
    r = _lift_memo.get(key)
    if r is not None:
        return r
    m = min(top(x) for x in args)
    for x in args:
        if top(x) == m:
            v = x.a[0]
            n = len(x.a) - 1
            break
    ch = [lift(tag, f, *[cof(x, v, i) for x in args]) for i in range(n)]
    r = rebuild(v, n, ch)
    _lift_memo[key] = r
    return r


# ------------------------------------------------------------------ polynomials


def as_poly(t):
    if t.op == "poly":
        return t.a[0]
    return ((((t, 1),), Fraction(1)),)


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    s = "i"
    if len(items) > 4000:
        raise TooBig()
    for m, c in items:
        if c.denominator != 1:
            s = "r"
            break
        for a, e in m:
            if a.sort not in ("i", "u") or e < 0:
                s = "r"
                break
    return mk("poly", tuple(items), sort=s)


def _num(t):
    """coerce to numeric"""
    if t.sort == "b":
        return b2i(t)
    return t


def add(a, b):
    a, b = _num(a), _num(b)
    return lift("+", _add, a, b)


def _add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op not in NUM or b.op not in NUM:
        return app("?add", a, b)
    d = dict(as_poly(a))
    for m, c in as_poly(b):
        v = d.get(m)
        d[m] = c if v is None else v + c
    return poly(d)


def scale(a, k):
    k = Fraction(k)
    return lift(("*", k), lambda x: poly({m: c * k for m, c in as_poly(x)}) if x.op in NUM else app("?scale", x, const(k)), _num(a))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))


def mul(a, b):
    return lift("*", _mul, _num(a), _num(b))


def _mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op not in NUM or b.op not in NUM:
        return app("?mul", a, b)
    pa, pb = as_poly(a), as_poly(b)
    # cancel a multi-term polynomial against its own inverse
    for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
        if len(px) > 1 and len(py) == 1:
            n, s = normq(x)
            m, c = py[0]
            for t, e in m:
                if t is n and e < 0:
                    k = _ratio(x, n)
                    return _mul(poly({_mmul(m, ((n, 1),)): c}), const(k))
    if len(pa) * len(pb) > 3000:
        raise TooBig()
    d = {}
    for m1, c1 in pa:
        for m2, c2 in pb:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def inv(a):
    return lift("inv", _inv, _num(a))


def _inv(a):
    if a.op not in NUM:
        return app("?inv", a)
    p = as_poly(a)
    if not p:
        return app("div0")
    if len(p) == 1:
        m, c = p[0]
        return poly({tuple((x, -e) for x, e in m): 1 / c})
    n, s = normq(a)
    k = _ratio(a, n)
    return poly({((n, -1),): 1 / k})


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def cval(t):
    """rational constant or None"""
    if t.op == "poly":
        if not t.a[0]:
            return Fraction(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == ():
            return t.a[0][0][1]
    return None


def pow_(a, b):
    return lift("pow", _pow, _num(a), _num(b))


def _pow(a, b):
    c = cval(b)
    if c is not None:
        if c.denominator == 1 and 0 <= c <= 12:
            return powi(a, int(c))
        if c.denominator == 1 and -6 <= c < 0:
            return inv(powi(a, int(-c)))
        if c < 0:
            return inv(app("pow", a, const(-c)))
        if c == Fraction(1, 2):
            p = as_poly(a)
            if len(p) == 1 and p[0][1] == 1 and all(e % 2 == 0 and e > 0 and atom_nonneg(x) for x, e in p[0][0]):
                return poly({tuple((x, e // 2) for x, e in p[0][0]): Fraction(1)})
    else:
        p = as_poly(b)
        if p and all(k < 0 for _, k in p):
            return inv(app("pow", a, neg(b)))
    if cval(a) == 1:
        return ONE
    return app("pow", a, b)


def pos(q):
    return lift("pos", _pos, _num(q))


def _pos(q):
    c = cval(q)
    if c is not None:
        return q if c > 0 else ZERO
    if q.op not in NUM:
        return app("?pos", q)
    if is_nonneg(q):
        return q
    if is_nonneg(neg(q)):
        return ZERO
    n, s = normq(q)
    k = _ratio(q, n)
    at = app("pos", n, sort="u" if is_int(n) else "r")
    if k > 0:
        return scale(at, k)
    return scale(sub(at, n), -k)


def max_(a, b):
    return add(b, pos(sub(a, b)))


def min_(a, b):
    return sub(a, pos(sub(a, b)))


def abs_(a):
    return sub(scale(pos(a), 2), a)


ODD = {"tanh", "erf", "sin", "sinh", "atan", "erfinv", "cbrt"}
EVEN = {"cos", "cosh"}


def fun1(name, a):
    def f(x):
        if x.op in NUM:
            c = cval(x)
            if c is not None:
                if c == 0 and name in ODD:
                    return ZERO
                if name == "exp" and c == 0:
                    return ONE
                if name == "log" and c == 1:
                    return ZERO
            elif name in ODD or name in EVEN:
                n, s = normq(x)
                if s < 0:
                    return neg(app(name, neg(x))) if name in ODD else app(name, neg(x))
            if name == "log" and x.op == "app" and x.a[0] == "exp":
                return x.a[1]
        return app(name, x)

    return lift(("fun", name), f, _num(a))


def trunc(a):
    def f(x):
        if is_int(x):
            return x
        c = cval(x)
        if c is not None:
            return const(int(c))
        return app("trunc", x, sort="i")

    return lift("trunc", f, _num(a))


def _euclid(x, y):
    """quotient and remainder when x = A + y*B with 0 <= A < y and B >= 0 is in sight"""
    if y.op in ("sym", "app"):
        rest, quo = {}, {}
        for m, c in as_poly(x):
            k = [(a, e) for a, e in m if a is y]
            if k and k[0][1] >= 1 and c.denominator == 1:
                quo[tuple((a, e if a is not y else e - 1) for a, e in m if not (a is y and e == 1))] = c
            else:
                rest[m] = c
        A, B = poly(rest), poly(quo)
        if is_nonneg(B) and is_nonneg(A) and is_nonneg(sub(sub(y, ONE), A)):
            return B, A
        # k - k % y
        for m, c in as_poly(x):
            if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "imod" and m[0][0].a[2] is y:
                k = m[0][0].a[1]
                if sub(x, sub(k, m[0][0])) is ZERO and is_nonneg(k):
                    return idiv(k, y), ZERO
    return None


def idiv(a, b):
    def f(x, y):
        c, d = cval(x), cval(y)
        if c is not None and d is not None and d != 0:
            q = abs(c) // abs(d)
            return const(q if (c >= 0) == (d >= 0) else -q)
        if d == 1:
            return x
        r = _euclid(x, y)
        if r is not None:
            return r[0]
        return app("idiv", x, y, sort="i")

    return lift("idiv", f, _num(a), _num(b))


def imod(a, b):
    def f(x, y):
        c, d = cval(x), cval(y)
        if c is not None and d is not None and d != 0:
            r = abs(c) % abs(d)
            return const(r if c >= 0 else -r)
        if d == 1:
            return ZERO
        r = _euclid(x, y)
        if r is not None:
            return r[1]
        return app("imod", x, y, sort="i")

    return lift("imod", f, _num(a), _num(b))


# ------------------------------------------------------------------ bounds

_nn_memo = {}


def atom_nonneg(a):
    if a.sort == "u":
        return True
    if a in _bounds and _bounds[a][0] >= 0:
        return True
    if a.op == "sym":
        return a in _range and _range[a] is not None
    if a.op == "app" and a.a[0] in ("pos", "exp", "len", "sqrt_nn"):
        return True
    if a.op == "app" and a.a[0] == "imod":
        return is_nonneg(a.a[1])
    if a.op == "app" and a.a[0] == "idiv":
        return is_nonneg(a.a[1]) and is_nonneg(a.a[2])
    if a.op == "sum":
        return nonneg_body(a.a[1])
    return False


def hi_of(a):
    """strict upper bound of an atom, or None"""
    if a.op == "sym":
        return _range.get(a)
    if a.op == "app" and a.a[0] == "idx":
        return a.a[2] if not is_dd(a.a[2]) else None
    if a.op == "app" and a.a[0] == "imod" and is_nonneg(a.a[1]):
        return a.a[2]
    if a.op == "app" and a.a[0] == "at" and a.a[1].op == "sopq":
        x = a.a[1].a[0]
        if x.op == "app" and x.a[0] in ("uniq", "expj", "spos") and not is_dd(x.a[1]):
            return x.a[1]
    return None


def nonneg_body(b):
    for l in dd_leaves(b):
        if l.op == "poly":
            for m, c in l.a[0]:
                if c < 0:
                    return False
                for a, e in m:
                    if a.op == "bv":
                        continue
                    if not atom_nonneg(a):
                        return False
        elif l.op == "bv":
            continue
        elif not atom_nonneg(l):
            return False
    return True


def is_nonneg(p, depth=0):
    """provably p >= 0 under the ranges of the bound symbols (sound, incomplete)"""
    if is_dd(p):
        return all(is_nonneg(l) for l in dd_leaves(p))
    if p.op not in NUM:
        return False
    if p in _nn_memo:
        return _nn_memo[p]
    pp = as_poly(p)
    ok = True
    for m, c in pp:
        if c < 0:
            ok = False
            break
        for a, e in m:
            if not (atom_nonneg(a) or e % 2 == 0):
                ok = False
                break
        if not ok:
            break
    if ok:
        _nn_memo[p] = True
        return True
    if depth < 4:
        # eliminate the newest ranged symbol that occurs with a negative coefficient, linearly
        cand = None
        for m, c in pp:
            if c < 0:
                for a, e in m:
                    if e == 1 and hi_of(a) is not None:
                        if cand is None or a.id > cand.id:
                            cand = a
        if cand is not None:
            lin = {}
            rest = {}
            good = True
            for m, c in pp:
                es = [e for a, e in m if a is cand]
                if not es:
                    rest[m] = c
                elif es[0] == 1:
                    lin[tuple((a, e) for a, e in m if a is not cand)] = c
                else:
                    good = False
            if good and not any(cand in a.fs for m in rest for a, e in m) and not any(cand in a.fs for m in lin for a, e in m):
                L = poly(lin)
                if is_nonneg(neg(L), depth + 1):
                    hi = sub(hi_of(cand), ONE)
                    if not is_dd(hi):
                        q = _add(poly(rest), _mul(L, hi))
                        if is_nonneg(q, depth + 1):
                            _nn_memo[p] = True
                            return True
                elif is_nonneg(L, depth + 1) and is_nonneg(poly(rest), depth + 1):
                    _nn_memo[p] = True
                    return True
        # a ranged symbol implies its bound is >= 1: n >= x+1
        if depth < 2:
            for m, c in pp:
                if c > 0 and len(m) >= 1 and len(m) == 1 and m[0][1] == 1:
                    n = m[0][0]
                    for s in _by_bound.get(n, ())[-8:]:
                        if s not in p.fs:
                            continue  # nothing says that s is in scope
                        q = _add(p, poly({((s, 1),): c, (): c, ((n, 1),): -c}))
                        if is_nonneg(q, depth + 2):
                            _nn_memo[p] = True
                            return True
        # A - c*pos(q) is the smaller of A and A - c*q
        for m, c in pp:
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "pos":
                A = _add(p, poly({m: -c}))
                if is_nonneg(A, depth + 1) and is_nonneg(_add(A, scale(m[0][0].a[1], c)), depth + 1):
                    _nn_memo[p] = True
                    return True
                break
        # constant bounds
        for m, c in pp:
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _bounds:
                hi = _bounds[m[0][0]][1]
                if hi is not None:
                    q = _add(p, poly({m: -c, (): c * hi}))
                    if is_nonneg(q, depth + 1):
                        _nn_memo[p] = True
                        return True
    return False


_by_bound = {}


def set_range(s, hi):
    _range[s] = hi
    if hi is not None and hi.op != "poly" and not is_dd(hi):
        _by_bound.setdefault(hi, []).append(s)


def is_positive(p):
    pp = as_poly(p)
    if any(m == () and c > 0 for m, c in pp):
        return is_nonneg(sub(p, const(dict(pp).get((), 0))))
    return False


# ------------------------------------------------------------------ substitution

_subst_memo = {}


def subst(t, mp):
    """replace free symbols (sym or bv terms) by terms; mp: dict T->T"""
    mp = {k: v for k, v in mp.items() if k is not v}
    if not mp:
        return t
    key = tuple(sorted(((k, v) for k, v in mp.items()), key=lambda kv: kv[0].id))
    memo = _subst_memo.setdefault(key, {})
    ks = frozenset(mp.keys())
    syms = frozenset(k for k in ks if k.op != "bv")
    hasbv = len(syms) != len(ks)
    return _subst(t, mp, syms, hasbv, memo)


def _subst(t, mp, syms, hasbv, memo):
    if t in mp:
        return mp[t]
    if not hasbv and syms.isdisjoint(t.fs):
        return t
    if hasbv and t.op == "lit":
        return t
    r = memo.get(t)
    if r is not None:
        return r
    rec = lambda x: _subst(x, mp, syms, hasbv, memo)
    r = rebuild_with(t, rec, mp)
    memo[t] = r
    return r


def rec_any(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(rec_any(y, f) for y in x)
    return x


def rebuild_with(t, rec, mp=None):
    """rebuild t with children mapped by rec, through the normalising constructors"""
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in t.a[0]:
            x = const(c)
            for a, e in m:
                y = rec(a)
                if e > 0:
                    x = mul(x, powi(y, e))
                else:
                    x = mul(x, inv(powi(y, -e)))
            r = add(r, x)
        return r
    if op == "cmp":
        return sign3(rec(t.a[0]), *[rec(c) for c in t.a[1:]]) if True else None
    if op == "br":
        c = rec(t.a[0])
        return ite(c, rec(t.a[2]), rec(t.a[1]))
    if op == "app":
        return reapp(t.a[0], [rec_any(x, rec) for x in t.a[1:]], t.sort)
    if op in BINDERS:
        body = t.a[-1]
        k = t.h
        n = rec(t.a[0])
        key = (body, k, n)
        sb = _open_memo.get(key)
        if sb is None:
            s = fresh("s")
            if op != "lam":
                set_range(s, n if not is_dd(n) else None)
            sb = _open_memo[key] = (s, open_bv(body, k, s))
        s, b = sb
        b = rec(b)
        if op == "sum":
            return sum_(n, s, b)
        if op == "any":
            return any_(n, s, b)
        if op == "prod":
            return prod_(n, s, b)
        if op in ("maxred", "minred"):
            return red_(op, n, rec(t.a[1]), s, b)
        if op == "sfor":
            return sfor(n, s, b)
        if op == "lam":
            return lam(s, b)
    if op == "struct":
        return struct({k: rec(v) for k, v in t.a[0]})
    if op == "scat":
        return scat([rec(x) for x in t.a])
    if op == "sif":
        return sif(rec(t.a[0]), rec(t.a[1]))
    if op == "selem":
        return selem(rec(t.a[0]))
    if op == "sopq":
        return as_seq(rec(t.a[0]))
    if op in ("cv", "scv"):
        return mk(op, t.a[0], *[rec(x) for x in t.a[1:]], sort=t.sort)
    if op == "fold":
        return mk("fold", *[rec_any(x, rec) for x in t.a], sort=t.sort)
    if op in ("sym", "bv", "lit", "true", "false"):
        return t
    return mk(op, *[rec_any(x, rec) for x in t.a], sort=t.sort)


# one symbol per opened body: it never occurs outside that body
_open_memo = {}


def open_bv(body, k, s):
    return subst(body, {bv(k): s})


def close(s, body, *others):
    """-> body with s replaced by bv(height of the binder, whose other arguments are given)"""
    k = max([body.h] + [x.h for x in others]) + 1
    return subst(body, {s: bv(k)})


def reapp(name, args, sort):
    if name == "pow":
        return pow_(*args)
    if name == "pos":
        return pos(*args)
    if name in FUN1:
        return fun1(name, args[0])
    if name == "trunc":
        return trunc(args[0])
    if name == "idiv":
        return idiv(*args)
    if name == "imod":
        return imod(*args)
    if name == "at":
        return at(args[0], args[1], sort)
    if name == "len":
        return slen(args[0])
    if name == "pqtop":
        return lift_any(lambda x: x.a[3 + args[2].a[0]] if x.op == "app" and x.a[0] == "pqpush" and x.a[1] is _pq0() else app("pqtop", x, *args[1:], sort=sort), args[0])
    if name == "pqpop":
        return lift_any(lambda x: x.a[1] if x.op == "app" and x.a[0] == "pqpush" and x.a[1] is _pq0() else app("pqpop", x, *args[1:], sort=sort), args[0])
    if any(isinstance(x, T) and is_dd(x) for x in args):
        ts = [x for x in args if isinstance(x, T)]
        if all(isinstance(x, T) for x in args):
            return lift(("app", name, sort), lambda *xs: reapp2(name, xs, sort), *args)
    return reapp2(name, args, sort)


def _pq0():
    return app("pq0", sort="v")


def reapp2(name, args, sort):
    f = REAPP.get(name)
    if f:
        return f(*args)
    return app(name, *args, sort=sort)


REAPP = {}
FUN1 = {"tanh", "erf", "exp", "log", "sin", "cos", "sinh", "cosh", "atan", "erfinv", "cbrt", "floor", "ceil", "round", "log1p", "expm1", "erfc", "tan"}

_fn_memo = {}


def subst_cv(t, fns):
    """replace carried values cv(name, args...) by fns[name](*args)"""
    names = frozenset(fns)
    memo = {}

    def rec(x):
        if names.isdisjoint(x.fs):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("cv", "scv") and x.a[0] in fns:
            r = fns[x.a[0]](*[rec(y) for y in x.a[1:]])
        else:
            r = rebuild_with(x, rec)
        memo[x] = r
        return r

    return rec(t)


def tidy(t, facts=(), deep=False):
    """t under the facts, with equal pieces of a sequence joined where only one of them can be present"""
    if not is_seq(t):
        return prune(t, facts)
    parts = []
    for x in t.a if t.op == "scat" else [t]:
        c, y = (x.a[0], x.a[1]) if x.op == "sif" else (TRUE, x)
        c = prune(c, facts, not (deep and len(dd_tests(c)) <= 24))
        if c is FALSE:
            continue
        parts.append([c, y])
    i = 0
    while i < len(parts):
        j = i + 1
        while j < len(parts):
            if parts[j][1] is parts[i][1] and all(prune(and_(parts[j][0], p[0]), facts) is FALSE for p in parts[i:j]):
                c = or_(parts[i][0], parts[j][0])
                parts[i][0] = prune(c, facts, not (deep and len(dd_tests(c)) <= 24))
                del parts[j]
            else:
                j += 1
        i += 1
    return scat([sif(c, y) for c, y in parts])


def replace_terms(t, mp):
    """t with whole terms replaced"""
    memo = {}

    def rec(x):
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild_with(x, rec)
        return r

    return rec(t)


def equals_for_equals(t):
    """t with the symbol an equality test determines replaced by what it equals, under that outcome; integer inputs likewise"""
    memo = {}

    def put(x, eqs, ins):
        if eqs:
            x = subst(x, dict(eqs))
        if ins:
            x = replace_terms(x, dict(ins))
        return x

    def given(q, e, n):
        """the equation q == 0 as one more replacement"""
        ones = [m[0][0] for m, _k in as_poly(q) if len(m) == 1 and m[0][1] == 1]
        for y in sorted((y for y in ones if y.op == "sym"), key=lambda z: -z.id):
            g = solve_for(q, y)
            if g is not None:
                return tuple((z, subst(h, {y: g})) for z, h in e) + ((y, g),), tuple((subst(z, {y: g}), subst(h, {y: g})) for z, h in n)
        for y in sorted((y for y in ones if y.op == "app" and y.a[0] == "in" and y.sort in ("i", "u")), key=lambda z: -z.id):
            k = dict(as_poly(q))[((y, 1),)]
            g = sub(y, scale(q, 1 / k)) if abs(k) == 1 else None
            if g is not None and replace_terms(g, {y: ZERO}) is g:
                return e, tuple((z, replace_terms(h, {y: g})) for z, h in n) + ((y, g),)
        return e, n

    def rec(x, eqs, ins, facts):
        key = (x, eqs, ins, facts)
        r = memo.get(key)
        if r is not None:
            return r
        if not is_dd(x):
            r = put(x, eqs, ins)
        elif x.op == "br" or x.a[0].op not in NUM:
            v = x.a[0]
            ch = [rec(c, eqs, ins, facts) for c in x.a[1:]]
            r = rebuild(v, len(ch), ch)
        else:
            v = x.a[0]
            w = put(v, eqs, ins)
            if is_dd(w):
                w = v
            if not as_poly(w) or as_poly(w)[-1][0] == () == as_poly(w)[0][0]:
                k = as_poly(w)[0][1] if as_poly(w) else 0
                r = memo[key] = rec(x.a[1] if k < 0 else x.a[2] if k == 0 else x.a[3], eqs, ins, facts)
                return r
            ch = []
            for i, c in enumerate(x.a[1:]):
                e, n = eqs, ins
                # an integer between -1 and 0 that is negative is -1, and likewise above
                q = w
                if i != 1:
                    q = add(w, const(1 if i == 0 else -1))
                    if not is_int(w) or not is_nonneg(q if i == 0 else neg(q)):
                        q = None
                if q is not None:
                    e, n = given(q, e, n)
                f = more_facts(facts, w, i) if as_poly(w) and not (len(as_poly(w)) == 1 and as_poly(w)[0][0] == ()) else facts
                if f is None:
                    f = facts
                elif q is None:
                    # an integer whose bounds leave one value
                    old = dict(facts)
                    for base, (lo, hi, _ne) in f:
                        if lo is not None and lo == hi and old.get(base, (None, None, ()))[:2] != (lo, hi):
                            z = put(sub(base, const(lo)), e, n)
                            if not is_dd(z):
                                e, n = given(z, e, n)
                ch.append(rec(c, e, n, f))
            r = sign3(w, *ch)
        memo[key] = r
        return r

    return rec(t, (), (), ())


def canon_folds(t):
    """t with the names bound by its folds replaced by canonical ones (nesting depth and order of first use)"""
    has = {}

    def hasfold(x):
        st = [x]
        while st:
            y = st[-1]
            if y in has:
                st.pop()
                continue
            if y.op in ("fold", "scat") or is_dd(y):
                has[y] = True
                st.pop()
                continue
            ch = []
            z = list(y.a)
            while z:
                w = z.pop()
                if isinstance(w, T):
                    ch.append(w)
                elif isinstance(w, tuple):
                    z.extend(w)
            todo = [w for w in ch if w not in has]
            if todo:
                st.extend(todo)
                continue
            has[y] = any(has[w] for w in ch)
            st.pop()
        return has[x]

    memo = {}

    def rec(x, d):
        if not hasfold(x):
            return x
        r = memo.get((x, d))
        if r is not None:
            return r
        if x.op == "fold":
            cn, n, tab, ys, kind = x.a
            by = {e[0]: e for e in tab}
            order = []
            todo = [cn]
            while todo:
                c = todo.pop(0)
                if c in order:
                    continue
                order.append(c)
                seen = set()
                st = [by[c][3]]
                while st:
                    y = st.pop()
                    if y in seen or not any(isinstance(k, str) for k in y.fs):
                        continue
                    seen.add(y)
                    if y.op in ("cv", "scv") and y.a[0] in by and y.a[0] not in order:
                        todo.append(y.a[0])
                    z = list(reversed(y.a))
                    while z:
                        w = z.pop()
                        if isinstance(w, T):
                            st.append(w)
                        elif isinstance(w, tuple):
                            z.extend(reversed(w))
            new = {c: f"f{d}.{i}" for i, c in enumerate(order)}
            tab2 = []
            for c in order:
                _, k, ini, body = by[c]
                body = _ren_cv(body, new)
                if body.op == "lam":
                    # the step's number stays below the number of steps
                    key = (body.a[-1], body.h, n)
                    if key not in _open_memo:
                        z = fresh("s")
                        set_range(z, n if not is_dd(n) else None)
                        _open_memo[key] = (z, open_bv(body.a[-1], body.h, z))
                    z, b = _open_memo[key]
                    b = lam(z, rec(b, d + 1))
                else:
                    b = rec(body, d + 1)
                if ini.op == "lam" and k == "seq":
                    # rows by their number
                    key = (ini.a[-1], ini.h, "row")
                    if key not in _open_memo:
                        z = fresh("s", sort="u")
                        _open_memo[key] = (z, open_bv(ini.a[-1], ini.h, z))
                    z, i0 = _open_memo[key]
                    ini = lam(z, rec(i0, d))
                else:
                    ini = rec(ini, d)
                tab2.append((new[c], k, ini, b))
            r = mk("fold", new[cn], rec(n, d), tuple(tab2), tuple(rec(y, d) for y in ys), kind, sort=x.sort)
        else:
            r = rebuild_with(x, lambda y: rec(y, d))
            if r.op == "scat":
                r = tidy(r, (), True)
            elif is_dd(r) and len(dd_tests(r)) <= 24:
                r = prune(r, (), False)
        memo[(x, d)] = r
        return r

    return rec(t, 0)


def _ren_cv(t, new):
    memo = {}

    def rec(x):
        if not any(k in x.fs for k in new):
            return x
        r = memo.get(x)
        if r is None:
            if x.op in ("cv", "scv") and x.a[0] in new:
                r = mk(x.op, new[x.a[0]], *[rec(y) for y in x.a[1:]], sort=x.sort)
            else:
                r = rebuild_with(x, rec)
            memo[x] = r
        return r

    return rec(t)


# ------------------------------------------------------------------ reductions


def dep(t, s):
    return s in t.fs


def solve_for(q, s):
    """q == 0 solved for s when q is linear in s with coefficient +-1; None otherwise"""
    co = None
    rest = {}
    for m, c in as_poly(q):
        if m == ((s, 1),):
            co = c
        else:
            if any(dep(a, s) for a, e in m):
                return None
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    return scale(poly(rest), -1 / co)


def _indep_test(body, s):
    for v, n in dd_tests(body).items():
        if not dep(v, s):
            return v, n
    return None


def inrange(x, n):
    return and_(le_(ZERO, x), lt_(x, n))


def _delta_test(body, s):
    """an equality-like test on s"""
    for v, n in dd_tests(body).items():
        if n == 3:
            x = solve_for(v, s)
            if x is not None:
                l, g = restrict(body, v, 0), restrict(body, v, 2)
                if l is g:
                    return v, x, restrict(body, v, 1), l
    return None


def _replace_eq(t, v, s, x):
    return subst(t, {s: x})


def sum_(n, s, body):
    """sum of body over 0 <= s < n (n >= 0)"""
    body = _num(body)
    if is_dd(n):
        return lift(("sum", s, body), lambda m: sum_(m, s, body), n)
    if n is ZERO or body is ZERO:
        return ZERO
    it = _indep_test(body, s)
    if it:
        v, k = it
        return rebuild(v, k, [sum_(n, s, restrict(body, v, i)) for i in range(k)])
    if is_dd(body):
        d = _delta_test(body, s)
        if d:
            v, x, e, o = d
            e = subst(e, {s: x})
            base = sum_(n, s, o)
            return add(base, ite(inrange(x, n), sub(e, subst(o, {s: x})), ZERO))
    # single-step unrolling for constant small n
    c = cval(n)
    if c is not None and c <= 4:
        r = ZERO
        for i in range(int(c)):
            r = add(r, subst(body, {s: const(i)}))
        return r
    monos = {}
    for l in dd_leaves(body):
        if l.op not in NUM:
            return app("?sum", n, lam(s, body))
        for m, c in as_poly(l):
            monos[m] = True
    r = ZERO
    for m in monos:
        mi = tuple((a, e) for a, e in m if not dep(a, s))
        md = tuple((a, e) for a, e in m if dep(a, s))

        def pick(l, m=m):
            for mm, c in as_poly(l):
                if mm == m:
                    return const(c)
            return ZERO

        coef = lift(("pick", m), pick, body)
        lc = None
        for l in sorted(dd_leaves(coef), key=lambda z: z.id):
            if l is not ZERO:
                lc = cval(l)
                break
        if lc is None:
            continue
        if lc != 1:
            coef = scale(coef, 1 / lc)
        b = mul(coef, poly({md: Fraction(1)}))
        if b is ONE:
            x = n
        else:
            if md == ((s, 1),) and coef is ONE:
                x = scale(mul(n, sub(n, ONE)), Fraction(1, 2))
            else:
                b = _rev(n, s, b)
                isint = all(is_int(l) for l in dd_leaves(b))
                x = mk("sum", n, close(s, b, n), sort="i" if isint else "r")
        r = add(r, scale(mul(poly({mi: Fraction(1)}), x), lc))
    return r


def _rev(n, s, b):
    """canonical orientation of a sum: prefer f(s) over f(n-1-s)"""
    if _negated(b, s):
        b2 = subst(b, {s: sub(sub(n, ONE), s)})
        if _size(b2) < _size(b):
            return b2
    return b


def _negated(b, s):
    """s occurs with a negative coefficient"""
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen or s not in x.fs:
            continue
        seen.add(x)
        if x.op == "poly":
            for m, c in x.a[0]:
                if c < 0 and m == ((s, 1),):
                    return True
                st.extend(a for a, e in m)
        else:
            st.extend(x.a)
    return False


_size_memo = {}


def _size(t):
    r = _size_memo.get(t)
    if r is None:
        r = 1
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                r += _size(x)
            elif isinstance(x, tuple):
                st.extend(x)
            else:
                r += 1
        _size_memo[t] = r
    return r


def prod_(n, s, body):
    if is_dd(n):
        return lift(("prod", s, body), lambda m: prod_(m, s, body), n)
    if n is ZERO or body is ONE:
        return ONE
    it = _indep_test(body, s)
    if it:
        v, k = it
        return rebuild(v, k, [prod_(n, s, restrict(body, v, i)) for i in range(k)])
    if not is_dd(body) and not dep(body, s):
        return pow_(body, n)
    return mk("prod", n, close(s, body, n), sort="r")


def any_(n, s, body):
    if is_dd(n):
        return lift(("any", s, body), lambda m: any_(m, s, body), n)
    if n is ZERO or body is FALSE:
        return FALSE
    it = _indep_test(body, s)
    if it:
        v, k = it
        return rebuild(v, k, [any_(n, s, restrict(body, v, i)) for i in range(k)])
    if body is TRUE:
        return lt_(ZERO, n)
    d = _delta_test(body, s)
    if d:
        v, x, e, o = d
        if o is FALSE:
            return and_(inrange(x, n), subst(e, {s: x}))
    c = cval(n)
    if c is not None and c <= 4:
        r = FALSE
        for i in range(int(c)):
            r = or_(r, subst(body, {s: const(i)}))
        return r
    if body.op == "app" and not is_bool(body):
        return app("?any", n, lam(s, body), sort="b")
    return mk("any", n, close(s, body, n), sort="b")


def red_(op, n, init, s, body):
    if is_dd(n) or is_dd(init):
        return lift((op, s, body), lambda m, i: red_(op, m, i, s, body), n, init)
    if n is ZERO:
        return init
    it = _indep_test(body, s)
    if it:
        v, k = it
        return rebuild(v, k, [red_(op, n, init, s, restrict(body, v, i)) for i in range(k)])
    isint = is_int(init) and all(is_int(l) for l in dd_leaves(body))
    # maxred: args (n, init, body)
    return mk(op, n, init, close(s, body, n, init), sort="i" if isint else "r")


def lam(s, body):
    return mk("lam", ZERO, close(s, body))


# ------------------------------------------------------------------ sequences

SEQOPS = {"sfor", "sif", "selem", "scat", "scv", "sopq"}


def is_seq(t):
    return t.op in SEQOPS


SEMPTY = mk("scat")


def selem(v):
    return mk("selem", v)


def as_seq(t):
    if is_seq(t):
        return t
    if t.op == "lit" and isinstance(t.a[0], str):
        return selem(t) if t.a[0] else SEMPTY
    if is_dd(t):
        # conditional opaque sequences
        v = t.a[0]
        n = len(t.a) - 1
        cs = []
        for i in range(n):
            c = [FALSE] * n
            c[i] = TRUE
            cs.append(sif(rebuild(v, n, c), as_seq(t.a[1 + i])))
        return scat(cs)
    return mk("sopq", t)


def scat(parts):
    out = []
    for p in parts:
        if p.op == "scat":
            out.extend(p.a)
        else:
            out.append(p)
    # merge neighbours
    res = []
    for p in out:
        _push(res, p)
    if len(res) == 1:
        return res[0]
    return mk("scat", *res)


def _push(res, p):
    while res:
        m = _merge(res[-1], p)
        if m is None:
            # of two texts of which there is at most one the order does not matter
            q = res[-1]
            x, y = _sometext(q), _sometext(p)
            if x is not None and y is not None and y < x and and_(q.a[0], p.a[0]) is FALSE:
                res.pop()
                _push(res, p)
                p = q
            break
        res.pop()
        if m.op == "scat":
            res.extend(m.a)
            return
        p = m
    res.append(p)


def _sometext(p):
    if p.op == "sif" and p.a[1].op == "selem" and p.a[1].a[0].op == "lit" and isinstance(p.a[1].a[0].a[0], str):
        return p.a[1].a[0].a[0]
    return None


def _guard(p):
    if p.op == "sif":
        return p.a[0], p.a[1]
    return TRUE, p


def _merge(a, b):
    """merge two adjacent parts when they are guarded by disjoint conditions, or literal text"""
    if a.op == "selem" and b.op == "selem":
        x, y = a.a[0], b.a[0]
        if x.op == "lit" and y.op == "lit" and isinstance(x.a[0], str) and isinstance(y.a[0], str):
            return selem(lit(x.a[0] + y.a[0]))
        return None
    if a.op == "sif" and b.op == "sif":
        ca, sa = a.a
        cb, sb = b.a
        if and_(ca, cb) is FALSE:
            if sa is sb:
                return sif(or_(ca, cb), sa)
            if sa.op == "selem" and sb.op == "selem":
                x, y = sa.a[0], sb.a[0]
                if x.op != "lit" and y.op != "lit" and not is_seq(x) and not is_seq(y):
                    return sif(or_(ca, cb), selem(ite(ca, x, y)))
            if sa.op == "sfor" and sb.op == "sfor" and sa.a[0] is sb.a[0]:
                s = fresh("m")
                set_range(s, sa.a[0])
                x = open_bv(sa.a[1], sa.h, s)
                y = open_bv(sb.a[1], sb.h, s)
                if x.op == "selem" and y.op == "selem" and not is_seq(x.a[0]):
                    return sif(or_(ca, cb), sfor(sa.a[0], s, selem(ite(ca, x.a[0], y.a[0]))))
    return None


def sif(c, s):
    if c is TRUE:
        return s
    if c is FALSE or s is SEMPTY:
        return SEMPTY
    if s.op == "sif":
        return sif(and_(c, s.a[0]), s.a[1])
    if s.op == "scat":
        return scat([sif(c, x) for x in s.a])
    return mk("sif", c, s)


def sfor(n, s, body):
    if is_dd(n):
        v = n.a[0]
        k = len(n.a) - 1
        parts = []
        for i in range(k):
            c = [FALSE] * k
            c[i] = TRUE
            parts.append(sif(rebuild(v, k, c), sfor(n.a[1 + i], s, body)))
        return scat(parts)
    if n is ZERO or body is SEMPTY:
        return SEMPTY
    c = cval(n)
    if c is not None and c <= 4:
        return scat([subst(body, {s: const(i)}) for i in range(int(c))])
    if body.op == "sif":
        if not dep(body.a[0], s):
            return sif(body.a[0], sfor(n, s, body.a[1]))
    # identity comprehension over an opaque sequence
    if body.op == "selem" and body.a[0].op == "app" and body.a[0].a[0] == "at" and body.a[0].a[2] is s and not dep(body.a[0].a[1], s) and slen(body.a[0].a[1]) is n:
        return body.a[0].a[1]
    return mk("sfor", n, close(s, body, n))


def seq_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "sfor" and b.op == "sfor" and a.a[0] is b.a[0]:
        s = fresh("m")
        set_range(s, a.a[0])
        x = open_bv(a.a[1], a.h, s)
        y = open_bv(b.a[1], b.h, s)
        if x.op == "selem" and y.op == "selem":
            return sfor(a.a[0], s, selem(ite(c, x.a[0], y.a[0])))
    pa = list(a.a) if a.op == "scat" else [a]
    pb = list(b.a) if b.op == "scat" else [b]
    pre = []
    while pa and pb and pa[0] is pb[0]:
        pre.append(pa.pop(0))
        pb.pop(0)
    suf = []
    while pa and pb and pa[-1] is pb[-1]:
        suf.insert(0, pa.pop())
        pb.pop()
    # literal text with a common prefix
    if pa and pb and pa[0].op == "selem" and pb[0].op == "selem" and len(pa) == len(pb) == 1:
        x, y = pa[0].a[0], pb[0].a[0]
        if x.op != "lit" and y.op != "lit" and not is_seq(x) and not is_seq(y):
            return scat(pre + [selem(ite(c, x, y))] + suf)
        if is_seq(x) and is_seq(y):
            return scat(pre + [selem(seq_ite(c, x, y))] + suf)
    # equal-length vectors of plain elements
    if len(pa) == len(pb) and pa and all(p.op == "selem" and p.a[0].op != "lit" for p in pa + pb):
        return scat(pre + [selem(ite(c, x.a[0], y.a[0])) for x, y in zip(pa, pb)] + suf)
    return scat(pre + [sif(c, scat(pa)), sif(not_(c), scat(pb))] + suf)


def slen(t):
    t = as_seq(t) if not is_seq(t) else t
    if t.op == "scat":
        r = ZERO
        for x in t.a:
            r = add(r, slen(x))
        return prune(r) if is_dd(r) else r
    if t.op == "selem":
        x = t.a[0]
        if x.op == "lit" and isinstance(x.a[0], str):
            return const(len(x.a[0]))
        if x.op == "app" and x.a[0] in ("fmt", "tostr"):
            return app("len", selem(x), sort="u")
        if x.op == "app" and x.a[0] == "blanks":
            return x.a[1]
        return ONE
    if t.op == "sif":
        return ite(t.a[0], slen(t.a[1]), ZERO)
    if t.op == "sfor":
        if t.a[1].op == "selem" and slen(t.a[1]) is ONE:
            return t.a[0]
        s = fresh("m")
        set_range(s, t.a[0])
        b = open_bv(t.a[1], t.h, s)
        return sum_(t.a[0], s, slen(b))
    if t.op == "sopq" and t.a[0].op == "fold" and not t.a[0].a[3]:
        # a sequence that grows by as many elements in every step
        name, n, tab = t.a[0].a[:3]
        for nm, kind, init, body in tab:
            if nm == name and kind == "seq" and body.op == "lam" and body.a[1].op == "scat":
                first, tail = body.a[1].a[0], body.a[1].a[1:]
                if first.op == "scv" and first.a[0] == nm and len(first.a) == 1:
                    k = ZERO
                    for x in tail:
                        k = add(k, slen(x))
                    if cval(k) is not None:
                        return add(slen(init), mul(k, n))
    return app("len", t, sort="u")


def at(t, i, sort=None):
    """element i of sequence t"""
    if is_dd(i):
        return lift(("at", t, sort), lambda j: at(t, j, sort), i)
    if not is_seq(t):
        t = as_seq(t)
    if t.op == "sfor":
        if t.a[1].op == "selem":
            return open_bv(t.a[1].a[0], t.h, i)
        s = fresh("m")
        set_range(s, t.a[0])
        b = open_bv(t.a[1], t.h, s)
        if b.op == "selem":
            return subst(b.a[0], {s: i})
    elif t.op == "selem" and not (t.a[0].op == "lit") and not (t.a[0].op == "app" and t.a[0].a[0] in ("fmt", "tostr")):
        if i is ZERO or cval(i) is None:
            return t.a[0]
    elif t.op == "sif":
        return at(t.a[1], i, sort)
    elif t.op == "scat" and t.a:
        p = t.a[0]
        if p.op != "sif" and p.op not in ("scv", "sopq") and not (p.op == "selem" and p.a[0].op in ("lit", "app") and (p.a[0].op == "lit" or p.a[0].a[0] in ("fmt", "tostr"))):
            n = slen(p)
            inp = lt_(i, n)
            if inp is TRUE:
                return at(p, i, sort)
            rest = at(scat(list(t.a[1:])), sub(i, n), sort)
            if inp is FALSE:
                return rest
            return ite(inp, at(p, i, sort), rest)
        if p.op in ("scv", "sopq"):
            n = slen(p)
            d = sub(i, n)
            if d is ZERO or is_nonneg(d):
                return at(scat(list(t.a[1:])), d, sort)
        if p.op == "sif":
            yes, no = _split_parts(t.a, p.a[0])
            if yes is not None:
                return ite(p.a[0], at(scat(yes), i, sort), at(scat(no), i, sort))
    return app("at", t, i, sort=sort or elem_sort(t) or "v")


def _split_parts(parts, g):
    """the parts present with and without g, when g settles every part's presence"""
    yes, no = [], []
    ng = not_(g)
    if len(parts) > 1 and all(p.op == "sif" for p in parts) and all(prune(and_(g, p.a[0])) is FALSE for p in parts[1:]):
        return [parts[0].a[1]], list(parts[1:])
    for p in parts:
        if p.op != "sif":
            yes.append(p)
            no.append(p)
            continue
        h = p.a[0]
        for c, out in ((g, yes), (ng, no)):
            if and_(c, h) is FALSE:
                continue
            if and_(c, not_(h)) is FALSE:
                out.append(p.a[1])
            else:
                return None, None
    if not yes or not no:
        return None, None
    return yes, no


def at_fields(t, i, names):
    """t[i].f.g... without building the rest of t[i]"""
    if is_dd(i):
        return lift(("atf", t, tuple(names)), lambda j: at_fields(t, j, names), i)
    if t.op == "sfor" and t.a[1].op == "selem":
        x, k = t.a[1].a[0], 0
        while k < len(names) and x.op == "struct":
            x = field(x, names[k])
            k += 1
        x = open_bv(x, t.h, i)
        names = names[k:]
    else:
        x = at(t, i)
    for n in names:
        x = field(x, n)
    return x


def elem_sort(t):
    if t.op == "selem":
        return t.a[0].sort
    if t.op in ("sif",):
        return elem_sort(t.a[1])
    if t.op == "sfor":
        return elem_sort(t.a[1])
    if t.op == "scat":
        for x in t.a:
            r = elem_sort(x)
            if r:
                return r
    if t.op in ("scv",):
        return t.sort if t.sort != "v" else None
    if t.op == "sopq":
        x = t.a[0]
        if x.op == "app" and isinstance(x.a[0], str) and x.sort.startswith("["):
            return x.sort[1:]
    return None


# ------------------------------------------------------------------ structs


def struct(d):
    return mk("struct", tuple(d.items()))


def field(t, name):
    if t.op == "struct":
        for k, v in t.a[0]:
            if k == name:
                return v
        return app("?field:" + name, t)
    if is_dd(t):
        return lift_any(lambda x: field(x, name), t)
    return app("fld", name, t, sort="v")


def lift_any(f, t):
    if is_dd(t):
        v = t.a[0]
        n = len(t.a) - 1
        ch = [lift_any(f, c) for c in t.a[1:]]
        r = ch[-1]
        for i in range(n - 2, -1, -1):
            c = [FALSE] * n
            c[i] = TRUE
            r = ite(rebuild(v, n, c), ch[i], r)
        return r
    return f(t)


def setfield(t, name, v):
    d = dict(t.a[0])
    d[name] = v
    return struct(d)


# ------------------------------------------------------------------ printing


def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    S = lambda x: show(x, depth - 1)
    op = t.op
    if op == "poly":
        if not t.a[0]:
            return "0"
        parts = []
        for m, c in t.a[0]:
            f = []
            for a, e in m:
                x = S(a)
                if a.op == "poly":
                    x = "(" + x + ")"
                f.append(x if e == 1 else f"{x}^{e}")
            if not f:
                parts.append(str(c))
            elif c == 1:
                parts.append("*".join(f))
            elif c == -1:
                parts.append("-" + "*".join(f))
            else:
                parts.append(f"{c}*" + "*".join(f))
        return " + ".join(parts)
    if op == "cmp":
        return f"[{S(t.a[0])} ? <:{S(t.a[1])} =:{S(t.a[2])} >:{S(t.a[3])}]"
    if op == "br":
        return f"[{S(t.a[0])} ? {S(t.a[2])} : {S(t.a[1])}]"
    if op == "sym" or op == "lit":
        return str(t.a[0])
    if op == "bv":
        return f"#{t.a[0]}"
    if op in ("true", "false"):
        return op
    if op == "app":
        return f"{t.a[0]}(" + ", ".join(S(x) if isinstance(x, T) else str(x) for x in t.a[1:]) + ")"
    if op in ("sum", "any", "prod", "maxred", "minred"):
        return f"{op}[#{t.h}<{S(t.a[0])}](" + ", ".join(S(x) for x in t.a[1:]) + ")"
    if op == "sfor":
        return f"<{S(t.a[1])} | #{t.h}<{S(t.a[0])}>"
    if op == "sif":
        return f"({S(t.a[1])} if {S(t.a[0])})"
    if op == "selem":
        return S(t.a[0])
    if op == "scat":
        return "{" + "; ".join(S(x) for x in t.a) + "}"
    if op == "struct":
        return "{" + ", ".join(f"{k}={S(v)}" for k, v in t.a[0]) + "}"

    def sa(x):
        if isinstance(x, T):
            return S(x)
        if isinstance(x, tuple):
            return "(" + ",".join(sa(y) for y in x) + ")"
        return str(x)

    return f"{op}(" + ", ".join(sa(x) for x in t.a) + ")"
