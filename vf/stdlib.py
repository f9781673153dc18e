"""Transfer functions of the library operations the repository uses (containers, algorithms, text, random draws)."""
import re

from terms import *
import terms as TT
import interp as IN
from prog import AnalysisError

VEC = ("std::vector", "std::deque", "std::list")
STR = ("std::basic_string", "std::basic_string_view")
STREAMS = ("std::basic_fstream", "std::basic_ofstream", "std::basic_ifstream")
TEXTSTREAMS = ("std::basic_stringstream", "std::basic_istringstream", "std::basic_ostringstream")
NULLOPT = mk("nullopt")
NPOS = const(-1)


def none_opt(dflt=None):
    return struct({"has": FALSE, "val": dflt if dflt is not None else mk("noval")})


def some(v):
    return struct({"has": TRUE, "val": v})


def tn(t):
    return t.n if isinstance(t.n, str) else ""


def strip(ty):
    while ty is not None and ty.isref:
        ty = ty.of
    return ty


def opt_of(v, I=None):
    """value as an optional"""
    if v.op == "nullopt":
        return none_opt()
    if v.op == "struct" and any(k == "has" for k, _ in v.a[0]):
        return v
    if is_dd(v) and v.sort == "v":
        return lift_any(opt_of, v)
    if v.op == "app" and v.unk:
        return struct({"has": app("?has", v, sort="b"), "val": app("?val", v)})
    return some(v)


# ------------------------------------------------------------------ defaults and construction


def default_value(I, n, ty):
    if n in VEC or n in STR or n in ("std::set", "std::unordered_set", "std::map", "std::unordered_map", "std::multiset"):
        return SEMPTY
    if n == "std::array":
        cnt = ty.vals[0] if ty.vals else 0
        if cnt <= 8:
            return scat([selem(I.default(ty.a[0])) for _ in range(cnt)])
        s = fresh("z")
        set_range(s, const(cnt))
        return sfor(const(cnt), s, selem(I.default(ty.a[0])))
    if n == "std::optional":
        return none_opt()
    if n == "std::pair":
        return struct({"first": I.default(ty.a[0]), "second": I.default(ty.a[1])})
    if n in ("std::unique_ptr", "std::shared_ptr"):
        return lit(None)
    if n == "std::span":
        return struct({"$cls": lit("span"), "it": lit(None), "n": ZERO})
    if n in STREAMS:
        return struct({"$cls": lit("stream"), "path": SEMPTY, "mode": lit(""), "content": SEMPTY})
    if n in TEXTSTREAMS:
        return struct({"$cls": lit("textstream"), "content": SEMPTY, "at": ZERO, "ok": TRUE, "eof": FALSE})
    if n == "std::uniform_real_distribution":
        return dist("u01", ZERO, ONE)
    if n == "std::normal_distribution":
        return dist("norm", ZERO, ONE)
    if n == "std::uniform_int_distribution":
        return dist("uint", ZERO, const(2**31 - 1))
    if n == "std::mersenne_twister_engine":
        return mk("gen", app("mt", const(5489), sort="v"))
    if n == "std::priority_queue":
        return pq_new(I, ty, None)
    if n == "std::variant":
        return I.default(ty.a[0])
    if n in ("std::plus", "std::minus", "std::multiplies", "std::less", "std::greater", "std::equal_to", "std::logical_or", "std::logical_and", "std::less_equal", "std::greater_equal", "std::not_equal_to"):
        return mk("stdop", {"plus": "+", "minus": "-", "multiplies": "*", "less": "<", "greater": ">", "equal_to": "==", "logical_or": "||", "logical_and": "&&", "less_equal": "<=", "greater_equal": ">=", "not_equal_to": "!="}[n[5:]])
    if n in ("std::nullopt_t",):
        return NULLOPT
    if n.startswith("std::filesystem::path"):
        return SEMPTY
    if n.startswith("std::chrono") or n.startswith("std::allocator") or n == "std::random_device":
        return app("opaque", lit(n), sort="v")
    if n.startswith("toml::table"):
        return app("toml", NOFILE, sort="v")
    if n.startswith("fmt::"):
        return app("opaque", lit(n), sort="v")
    return None


def dist(kind, a, b):
    return struct({"$cls": lit("dist"), "kind": lit(kind), "a": a, "b": b})


def isalloc(I, e):
    try:
        t = strip(I.tyof(e))
    except (KeyError, TypeError, AttributeError):
        return False
    return t is not None and tn(t).startswith("std::allocator")


def real_args(I, args):
    return [a for a in args if not isalloc(I, a)]


def fill_seq(n, v):
    s = fresh("f")
    set_range(s, n if not is_dd(n) else None)
    return sfor(n, s, selem(v))


def is_iterty(t):
    t = strip(t)
    return t is not None and (t.c == "ptr" or "iterator" in tn(t))


def construct(I, n, ty, args, e):
    args = real_args(I, args)
    if n in VEC:
        if not args:
            return SEMPTY
        at = [strip(I.tyof(a)) for a in args]
        if len(args) == 1:
            if at[0].c in ("int", "enum") or (at[0].c == "float"):
                cnt = I.ev(args[0])
                return fill_seq(cnt, I.default(ty.a[0]))
            v = I.ev(args[0])
            return as_seq(v) if not is_seq(v) and not v.unk else v
        if len(args) == 2:
            if is_iterty(at[0]) and is_iterty(at[1]):
                return iter_range(I, I.ev(args[0]), I.ev(args[1]))
            cnt, v = I.ev(args[0]), I.ev(args[1])
            return fill_seq(cnt, v)
    if n in STR:
        if not args:
            return SEMPTY
        at = [strip(I.tyof(a)) for a in args]
        if len(args) == 1:
            v = I.ev(args[0])
            if at[0].c == "ptr" and v.op == "iter":
                return I._rd(v.a[0])
            return v
        if len(args) == 2 and at[0].c == "int":
            return app("?repeat", I.ev(args[0]), I.ev(args[1]))
        if len(args) == 2 and (is_iterty(at[0]) and is_iterty(at[1])):
            a, b = I.ev(args[0]), I.ev(args[1])
            if a.op == "iter" and b.op == "iter":
                return substr(I._rd(a.a[0]), a.a[1], sub(b.a[1], a.a[1]))
        if len(args) == 2:
            return substr(as_text(I, I.ev(args[0])), ZERO, I.ev(args[1]))
        if len(args) == 3:
            return substr(as_text(I, I.ev(args[0])), I.ev(args[1]), I.ev(args[2]))
        return None
    if n.endswith("__normal_iterator") and len(args) == 1:
        return I.ev(args[0])
    if n == "std::optional":
        if not args:
            return none_opt()
        v = I.ev(args[0])
        t = strip(I.tyof(args[0]))
        if tn(t) == "std::optional":
            return opt_of(v)
        if tn(t) == "std::nullopt_t":
            return none_opt()
        return opt_of(v) if v.op in ("nullopt",) else some(v)
    if n == "std::pair":
        if len(args) == 2:
            return struct({"first": I.ev(args[0]), "second": I.ev(args[1])})
        if len(args) == 1:
            return I.ev(args[0])
    if n == "std::tuple":
        return struct({f"_{i}": I.ev(a) for i, a in enumerate(args)})
    if n == "std::array":
        if not args:
            return default_value(I, n, ty)
        return I.ev(args[0])
    if n == "std::span":
        if not args:
            return default_value(I, n, ty)
        t = strip(I.tyof(args[0]))
        if len(args) >= 2:
            p = I.ev(args[0])
            if p.op == "ref":
                p = mk("iter", p, ZERO) if not p.a[1] or p.a[1][-1][0] != "i" else I.addr(p)
            b = I.ev(args[1])
            if b.op == "iter":
                b = sub(b.a[1], p.a[1]) if p.op == "iter" else app("?n")
            return struct({"$cls": lit("span"), "it": p, "n": b})
        if tn(t) == "std::span":
            return I.ev(args[0])
        r = I.lv(args[0])
        return struct({"$cls": lit("span"), "it": mk("iter", r, ZERO), "n": IN.slen_any(I._rd(r))})
    if n in ("std::unique_ptr", "std::shared_ptr"):
        if not args:
            return lit(None)
        return I.ev(args[0])
    if n == "std::variant":
        if not args:
            return default_value(I, n, ty)
        return I.ev(args[0])
    if n == "std::uniform_real_distribution" or n == "std::uniform_int_distribution" or n == "std::normal_distribution":
        d = default_value(I, n, ty)
        vals = [I.ev(a) for a in args]
        if n == "std::uniform_int_distribution" and ty.a and not args:
            return d
        if len(vals) > 0:
            d = setfield(d, "a", vals[0])
        if len(vals) > 1:
            d = setfield(d, "b", vals[1])
        return d
    if n == "std::bernoulli_distribution":
        return dist("bern", I.ev(args[0]) if args else const(Fraction(1, 2)), ZERO)
    if n == "std::mersenne_twister_engine":
        if not args:
            return default_value(I, n, ty)
        v = I.ev(args[0])
        if v.op == "gen":
            return v
        return seeded(I, v)
    if n in STREAMS:
        d = default_value(I, n, ty)
        if args:
            d = setfield(d, "path", as_text(I, I.ev(args[0])))
            mode = I.ev(args[1]) if len(args) > 1 else lit("")
            d = setfield(d, "mode", modeflags(mode, n))
        return d
    if n in TEXTSTREAMS:
        d = default_value(I, n, ty)
        if args:
            v = I.ev(args[0])
            if is_seq(v) or v.sort == "text" or v.op == "lit":
                if n == "std::basic_ostringstream":
                    return None  # the text is overwritten
                d = setfield(d, "content", as_text(I, v))
        return d
    if n.startswith("std::filesystem::path"):
        return as_text(I, I.ev(args[0])) if args else SEMPTY
    if n == "std::priority_queue":
        if len(args) > 1:
            return I.unk("priority queue of a range", e)
        return pq_new(I, ty, I.ev(args[0]) if args else None)
    if n in ("std::set", "std::unordered_set"):
        if not args:
            return SEMPTY
        if len(args) == 1:
            return I.ev(args[0])
    if n in ("std::runtime_error", "std::invalid_argument", "std::logic_error", "std::out_of_range", "std::domain_error"):
        for a in args:
            I.ev(a)
        return app("exception", sort="v")
    if n.startswith("fmt::"):
        v = [I.ev(a) for a in args]
        return v[0] if v else app("opaque", lit(n), sort="v")
    if n.startswith("std::reference_wrapper"):
        return I.lv(args[0])
    if n.startswith("toml::") or n.startswith("std::chrono") or n.startswith("std::random_device") or n.startswith("std::allocator") or n.startswith("std::nullopt_t"):
        if n.startswith("std::nullopt_t"):
            return NULLOPT
        if args:
            return I.ev(args[0])
        d = default_value(I, n, ty)
        return d if d is not None else app("opaque", lit(n), sort="v")
    if n.startswith("argparse::"):
        return app("argparse", sort="v")
    return None


def modeflags(m, cls=""):
    flags = {"out"} if "ofstream" in cls else {"in"} if "ifstream" in cls else set()
    st = [m]
    while st:
        x = st.pop()
        if x.op == "app" and x.a[0] == "bit|":
            st.extend(x.a[1:])
        elif x.op == "app" and x.a[0].startswith("glob:"):
            flags.add(x.a[0].split("::")[-1])
        elif x.op == "lit" and x.a[0] == "":
            pass
        elif cval(x) is not None and 0 < cval(x) < 64:
            flags.update(nm for k, nm in enumerate(("app", "ate", "binary", "in", "out", "trunc")) if int(cval(x)) >> k & 1)
        else:
            flags.add("?" + show(x, 3))
    if "out" in flags and "app" not in flags and "ate" not in flags and ("trunc" in flags or "in" not in flags):
        flags = {"out", "trunc"}
    return lit("|".join(sorted(flags)))


def as_text(I, v):
    if is_seq(v):
        return v
    if v.op == "iter":
        return as_text(I, I._rd(v.a[0]))
    return as_seq(v)


# ------------------------------------------------------------------ helpers


def span_parts(I, sp):
    if is_dd(sp):
        return lift_any(lambda x: field(x, "it"), sp), lift_any(lambda x: field(x, "n"), sp)
    if sp.op != "struct":
        return app("?it", sp), app("?n", sp, sort="u")
    return field(sp, "it"), field(sp, "n")


def iter_range(I, a, b):
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        inside_range(I, a, sub(b.a[1], a.a[1]), I.at)
        v = I._rd(a.a[0])
        v = v if is_seq(v) else as_seq(v)
        return IN.subseq(v, a.a[1], sub(b.a[1], a.a[1]))
    if is_dd(a) or is_dd(b):
        return lift_any(lambda x: lift_any(lambda y: iter_range(I, x, y), b), a)
    if a.op == "lit" and b.op == "lit":
        return SEMPTY
    return app("?range", a, b)


def iter_len(a, b):
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        return sub(b.a[1], a.a[1])
    if is_dd(a) or is_dd(b):
        return lift_any(lambda x: lift_any(lambda y: iter_len(x, y), b), a)
    if a.op == "lit":
        return ZERO
    return app("?itlen", a, b, sort="u")


def over(I, first, n, f, e):
    """run f(reference of element, index) for the n elements after iterator first, as a loop"""
    inside_range(I, first, n, e)
    idx = I.newroot("alg", ZERO)

    def head():
        return lt_(I._rd(idx), n)

    def body():
        i = I._rd(idx)
        f(I.deref(I.ptradd(first, i)), i)

    def inc():
        I.wr(idx, add(I._rd(idx), ONE))

    I.loop(head, body, inc, e)


def write_range(I, it, n, fn):
    """elements [it, it+n) := fn(k) with k the position relative to it"""
    if it.op != "iter":
        I.unk("writerange")
        I.wr(it, app("?wr"))
        return
    inside_range(I, it, n, I.at)
    base, off = it.a
    old = I._rd(base)
    old = old if is_seq(old) else as_seq(old)
    m = slen(old)
    s = fresh("w")
    set_range(s, m if not is_dd(m) else None)
    if off is ZERO and (m is n):
        I.wr(base, sfor(m, s, selem(fn(s))))
        return
    within = and_(le_(off, s), lt_(s, add(off, n)))
    I.wr(base, sfor(m, s, selem(ite(within, fn(sub(s, off)), at(old, s)))))


def seq_any(t, f):
    """exists an element satisfying f"""
    if not is_seq(t):
        if is_dd(t):
            v = t.a[0]
            k = len(t.a) - 1
            r = FALSE
            for i in range(k):
                c = [FALSE] * k
                c[i] = TRUE
                r = or_(r, and_(rebuild(v, k, c), seq_any(t.a[1 + i], f)))
            return r
        t = as_seq(t)
    if t.op == "selem":
        return f(t.a[0])
    if t.op == "sif":
        return and_(t.a[0], seq_any(t.a[1], f))
    if t.op == "scat":
        r = FALSE
        for p in t.a:
            r = or_(r, seq_any(p, f))
        return r
    if t.op == "sfor":
        s = fresh("q")
        set_range(s, t.a[0])
        b = open_bv(t.a[1], t.h, s)
        return any_(t.a[0], s, seq_any(b, f))
    s = fresh("q")
    n = slen(t)
    set_range(s, n if not is_dd(n) else None)
    return any_(n, s, f(at(t, s)))


def seq_all_len(t):
    return IN.slen_any(t)


def draw(I, gref, kind, extra=(), sort="r"):
    g = I._rd(gref)
    if g.op == "ref":
        g = I._rd(g)
    if g.op != "gen":
        return I.unk("draw", None, sort)
    gid = g.a[0]
    k = "$o" + str(gid.id)
    o = I.st.get(k, ZERO)
    t = lift_any(lambda oo: app("draw", lit(kind), gid, oo, *extra, *I.loopsyms, sort=sort), o)
    I.st[k] = add(o, ONE)
    I.draws.append((kind, I.fr.fn.q if I.fr and I.fr.fn else "?"))
    return t


def dist_draw(I, d, gref):
    if d.op != "struct":
        return I.unk("dist")
    k = field(d, "kind").a[0]
    a, b = field(d, "a"), field(d, "b")
    if k == "u01":
        return add(a, mul(sub(b, a), draw(I, gref, "u01")))
    if k == "norm":
        return add(a, mul(b, draw(I, gref, "norm")))
    if k == "uint":
        return add(a, draw(I, gref, "uint", (sub(b, a),), "u"))
    if k == "bern":
        return lt_(draw(I, gref, "u01"), a)
    return I.unk("dist:" + k)


NUMERIC = set("0123456789+-.einfaxp ")


def text_pieces(v):
    """the characters and formatted numbers a text consists of, or None"""
    out = []
    for x in v.a if v.op == "scat" else [v]:
        if x.op != "selem":
            return None
        y = x.a[0]
        if y.op == "lit" and isinstance(y.a[0], str):
            out += list(y.a[0])
        elif y.op == "app" and y.a[0] == "fmt" and y.a[2].sort in ("i", "u", "r"):
            out.append(y)
        elif y.op == "app" and y.a[0] == "blanks":
            out.append(y)
        else:
            return None
    return out


def piece_len(p):
    return ONE if isinstance(p, str) else slen(selem(p))


def pieces_text(ps):
    out, buf = [], ""
    for p in ps:
        if isinstance(p, str):
            buf += p
        else:
            if buf:
                out.append(selem(lit(buf)))
                buf = ""
            out.append(selem(p))
    if buf:
        out.append(selem(lit(buf)))
    return scat(out)


def locate(ps, pos):
    """the number of the piece that starts at pos"""
    x = ZERO
    for i in range(len(ps) + 1):
        if x is pos or sub(x, pos) is ZERO:
            return i
        if i < len(ps):
            x = add(x, piece_len(ps[i]))
    return None


def find_piece(v, ch, pos):
    """the position of a character in a text of known structure"""
    ps = text_pieces(v)
    if ps is None or ch in NUMERIC:
        return None
    k = locate(ps, pos)
    if k is None:
        return None
    x = pos
    for p in ps[k:]:
        if p == ch:
            return x
        x = add(x, piece_len(p))
    return NPOS


def number_in(v):
    """the value a number parser reads from a text of known structure"""
    if v.op == "sopq" and v.a[0].op == "app" and v.a[0].a[0] == "substr" and v.a[0].a[2] is ZERO:
        ps, upto = text_pieces(v.a[0].a[1]), v.a[0].a[3]
    else:
        ps, upto = text_pieces(v), None
    if not ps:
        return None
    x = ZERO
    i = 0
    while i < len(ps) and (ps[i] in (" ", "\t", "\n") if isinstance(ps[i], str) else ps[i].a[0] == "blanks"):
        x = add(x, piece_len(ps[i]))
        i += 1
    if i == len(ps) or isinstance(ps[i], str):
        return None
    if not re.fullmatch(r"[<>^]?[0-9]*", ps[i].a[1].a[0]):
        return None  # may not hold all digits
    if i + 1 < len(ps) and (ps[i + 1].a[0] != "blanks" if not isinstance(ps[i + 1], str) else ps[i + 1] in NUMERIC - {" "}):
        return None
    if upto is not None and not is_nonneg(sub(upto, add(x, piece_len(ps[i])))):
        return None
    return ps[i].a[2]


def by_case(f, v):
    """f of a text whose pieces depend on tests, test by test"""
    q = None
    for x in v.a if v.op == "scat" else [v]:
        d = x.a[0] if x.op in ("selem", "sif") else None
        if d is not None and is_dd(d):
            q, n = d.a[0], 3 if d.op == "cmp" else 2
            break
    if q is None:
        return f(v)
    out = []
    for i in range(n):
        ps = []
        for x in v.a if v.op == "scat" else [v]:
            if x.op == "selem" and is_dd(x.a[0]):
                ps.append(selem(cof(x.a[0], q, i)))
            elif x.op == "sif":
                c = cof(x.a[0], q, i) if is_dd(x.a[0]) else x.a[0]
                ps.append(sif(c, x.a[1]))
            else:
                ps.append(x)
        out.append(by_case(f, scat(ps)))
    if any(x is None for x in out):
        return None
    return ite3_gen(q, *out) if n == 3 else ite_b(q, out[1], out[0])


def substr(s, pos, n):
    if n.op == "app" and n.a[0] == "find" and s.op == "sopq" and s.a[0].op == "app" and s.a[0].a[0] == "substr":
        # n is where s ends, and s starts at or after the beginning
        _, st, m = s.a[0].a[1:4]
        if not is_dd(st) and not is_dd(m) and add(st, m) is n:
            n = NPOS
    if pos is ZERO and n is NPOS:
        return s
    if s.op in ("scat", "selem") and not is_dd(pos) and not is_dd(n):
        ps = text_pieces(s)
        k = locate(ps, pos) if ps is not None else None
        if k is not None:
            if n is NPOS:
                return pieces_text(ps[k:])
            end = add(pos, n)
            j = locate(ps, end)
            if j is not None and j >= k:
                return pieces_text(ps[k:j])
            if is_nonneg(sub(end, slen(s))):
                return pieces_text(ps[k:])
            return as_seq(app("substr", pieces_text(ps[k:]), ZERO, n, sort="text"))
    return as_seq(app("substr", s, pos, n, sort="text"))


def fmt_text(I, fs, vals):
    """format string text and argument values -> text sequence"""
    if fs.op == "selem":
        fs = fs.a[0]
    if fs is SEMPTY:
        return SEMPTY
    if fs.op != "lit" or not isinstance(fs.a[0], str):
        return as_seq(I.unk("fmtstring"))
    s = fs.a[0]
    out = []
    buf = ""
    i = 0
    nxt = 0
    while i < len(s):
        ch = s[i]
        if ch == "{" and s[i : i + 2] == "{{":
            buf += "{"
            i += 2
        elif ch == "}":
            buf += "}"
            i += 2 if s[i : i + 2] == "}}" else 1
        elif ch == "{":
            d = 1
            j = i + 1
            while j < len(s) and d:
                d += {"{": 1, "}": -1}.get(s[j], 0)
                j += 1
            body = s[i + 1 : j - 1]
            name, _, spec = body.partition(":")
            if name == "":
                k = nxt
                nxt += 1
            else:
                k = int(name) if name.isdigit() else 0
            if buf:
                out.append(selem(lit(buf)))
                buf = ""
            if k < len(vals):
                out.append(fmt_one(vals[k], spec))
            i = j
        else:
            buf += ch
            i += 1
    if buf:
        out.append(selem(lit(buf)))
    return scat(out)


def padded(t, spec, align):
    """a text filled up with blanks to a width"""
    m = re.fullmatch(r"([<>]?)([1-9][0-9]*)", spec)
    if not m:
        return None
    n = pos(sub(const(int(m.group(2))), slen(t)))
    if is_dd(n):
        return None
    b = selem(app("blanks", n, sort="text")) if n is not ZERO else SEMPTY
    return scat([t, b] if (m.group(1) or align) == "<" else [b, t])


def entries(v):
    """the texts between the commas of a text of known structure, as a sequence; or None"""
    out, cur = [], []
    for x in v.a if v.op == "scat" else [v]:
        if x.op == "sfor":
            m = fresh("m")
            set_range(m, x.a[0])
            ps = text_pieces(open_bv(x.a[1], x.h, m))
            if not ps or ps[0] != "," or "," in ps[1:] or cur is None:
                return None
            # the last entry of the loop ends here: what follows starts with a comma of its own
            out.append(selem(pieces_text(cur)))
            out.append(sfor(x.a[0], m, selem(pieces_text(ps[1:]))))
            cur = None
        else:
            ps = text_pieces(x)
            if ps is None:
                return None
            for p in ps:
                if p == ",":
                    if cur is not None:
                        out.append(selem(pieces_text(cur)))
                    cur = []
                elif cur is None:
                    return None
                else:
                    cur.append(p)
    if cur is not None:
        out.append(selem(pieces_text(cur)))
    return scat(out)


def fmt_one(v, spec):
    if v.op == "app" and v.a[0] == "joined":
        return join_text(v.a[1], v.a[2], spec)
    if is_seq(v) or (v.op == "lit" and isinstance(v.a[0], str)) or (v.op == "app" and v.sort == "text"):
        v = as_seq(v)
        if not spec:
            return v
        w = padded(v, spec, "<")
        if w is not None:
            return w
        return selem(app("fmt", lit(spec), v, sort="text"))
    if is_dd(v) and v.sort == "v":
        return as_seq(lift_any(lambda x: fmt_one(x, spec), v))
    if spec and v.sort in ("i", "u", "r"):
        w = padded(selem(app("fmt", lit(""), v, sort="text")), spec, ">")
        if w is not None:
            return w
    return selem(app("fmt", lit(spec), v, sort="text"))


def close_stream(I, r):
    v = I._rd(r)

    def one(x):
        if x.op != "struct":
            return SEMPTY
        p = field(x, "path")
        if p is SEMPTY:
            return SEMPTY
        if "out" not in field(x, "mode").a[0] and field(x, "content") is SEMPTY:
            return SEMPTY
        return selem(struct({"path": p, "mode": as_seq(field(x, "mode")), "content": field(x, "content")}))

    w = lift_any(one, v) if not is_dd(v) else as_seq(lift_any(one, v))
    if w is not SEMPTY:
        I.st["$files"] = scat([I.st["$files"], w])
    if v.op == "struct":
        I.wr(r, setfield(setfield(v, "path", SEMPTY), "content", SEMPTY))


def to_stdout(I, text):
    if "$printed" in I.st:
        I.st["$printed"] = scat([I.st["$printed"], text])


def global_named(e):
    while e.get("k") == "cast":
        e = e["e"]
    return e.get("g", "") if e.get("k") == "var" else ""


def stream_write(I, r, text):
    if r.op == "ref" and r.a[0] in ("g:std::cout", "g:std::cerr", "g:std::clog"):
        if r.a[0] == "g:std::cout":
            to_stdout(I, text)
        return
    v = I._rd(r)

    def one(x):
        if x.op == "struct" and dict(x.a[0]).get("$cls") in (lit("stream"), lit("textstream")):
            return setfield(x, "content", scat([field(x, "content"), text]))
        return x

    I.wr(r, lift_any(one, v))


def is_stream(v):
    return v.op == "struct" and dict(v.a[0]).get("$cls") is lit("stream")


MATH1 = {"tanh", "erf", "sin", "cos", "exp", "log", "sinh", "cosh", "atan", "cbrt", "floor", "ceil", "round", "log1p", "expm1", "erfc", "tan"}


def call(I, q, fn, this, args, e, want_ref):
    around, I.at = I.at, e
    r = _call(I, q, fn, this, args, e, want_ref)
    I.at = around
    if r is None:
        if this is not None:
            # an unknown operation may change its object
            if not q.endswith("const"):
                I.wr(this, I.unk("call:" + q, e))
        ps = fn.d.get("ps") or []
        for i, a in enumerate(args):
            t = I.P.ty(fn.tu, ps[i]) if i < len(ps) and not isinstance(ps[i], dict) else None
            if a.get("lv"):
                x = I.lv(a)
                if not (t is not None and t.isref and t.s.startswith("const ")) and not (t is not None and not t.isref):
                    I.wr(x, I.unk("changed by:" + q, e))
            else:
                x = I.ev(a)
                ta = strip(I.tyof(a)) if "t" in a else None
                havoc(I, x, ta, q, e)
        r = I.unk("call:" + q, e)
    if isinstance(r, tuple):  # ("ref", reference)
        if want_ref:
            return r[1]
        return I.rd(r[1])
    if want_ref:
        return I.newroot("r", r)
    return r


def havoc(I, v, t, q, e):
    """an unknown operation may change whatever its argument gives access to"""
    if t is not None and "const" in t.s and v.op in ("iter", "ref"):
        return
    if v.op == "iter":
        I.wr(v.a[0], I.unk("changed by:" + q, e))
    elif v.op == "ref":
        I.wr(v, I.unk("changed by:" + q, e))
    elif v.op == "backins":
        I.wr(v.a[0], I.unk("changed by:" + q, e))
    elif v.op == "clo":
        for k, c in v.a[1]:
            if c.op == "ref" and k is not lit("this"):
                I.wr(c, I.unk("changed by:" + q, e))
            elif c.op == "ref":
                I.unk("changed by a call from:" + q, e)
                I.wr(c, I.unk("changed by:" + q, e))
    elif v.op == "struct":
        for k, c in v.a[0]:
            havoc(I, c, None, q, e)


def R(x):
    return ("ref", x)


def rdseq(I, r):
    v = I._rd(r)
    return v if is_seq(v) else as_seq(v)


def _call(I, q, fn, this, args, e, want_ref):
    base = q.split("::")[-1]
    cls = q[: -len(base) - 2] if "::" in q else ""
    if cls.startswith("std::__cxx11::"):
        cls = "std::" + cls[14:]
    if this is not None or cls in CLASSES:
        h = CLASSES.get(cls)
        if h is None:
            if cls.startswith("std::chrono") or cls.startswith("std::filesystem::path"):
                h = misc_member
            elif cls.startswith("toml::") or cls.startswith("argparse::"):
                h = toml_member
        if h is not None:
            r = h(I, cls, base, fn, this, args, e, want_ref)
            return r
        if this is not None:
            if "iterator" in cls:
                return iter_member(I, cls, base, fn, this, args, e)
            return None
    # free functions
    if base in MATH1 and len(args) == 1 and not q.startswith("std::chrono"):
        return fun1(base, I.ev(args[0]))
    if base == "sqrt":
        return pow_(I.ev(args[0]), const(Fraction(1, 2)))
    if base == "pow":
        a, b = I.ev(args[0]), I.ev(args[1])
        return pow_(a, b)
    if base in ("abs", "fabs"):
        return abs_(I.ev(args[0]))
    if base in ("isnan", "isfinite", "isinf"):
        return app(base, I.ev(args[0]), sort="b")
    if base in ("fmax", "fmin") or (q in ("std::max", "std::min") and len(args) == 2):
        # value semantics
        a, b = I.ev(args[0]), I.ev(args[1])
        return max_(a, b) if "max" in base else min_(a, b)
    if q in ("std::max", "std::min") and len(args) == 1:
        v = I.ev(args[0])
        if v.op == "scat":
            xs = [p.a[0] for p in v.a]
            r = xs[0]
            for x in xs[1:]:
                r = max_(r, x) if base == "max" else min_(r, x)
            return r
    if q == "std::clamp":
        x, lo, hi = [I.ev(a) for a in args]
        return min_(max_(x, lo), hi)
    if q in ("std::fma", "fma"):
        a, b, c = [I.ev(x) for x in args]
        return add(mul(a, b), c)
    if q == "std::copysign":
        a, b = I.ev(args[0]), I.ev(args[1])
        return ite(lt_(b, ZERO), neg(abs_(a)), abs_(a))
    if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"):
        if q == "std::move" and len(args) == 3:
            return alg_copy(I, args, e)
        r = I.lv(args[0])
        return I.addr(r) if q == "std::addressof" else R(r)
    if q == "std::exchange":
        r = I.lv(args[0])
        old = I._rd(r)
        I.wr(r, I.ev(args[1]))
        return old
    if q == "std::swap":
        a, b = I.lv(args[0]), I.lv(args[1])
        va, vb = I._rd(a), I._rd(b)
        I.wr(a, vb)
        I.wr(b, va)
        return lit(None)
    if q in ("std::make_unique", "std::make_shared"):
        return make_unique(I, fn, args, e)
    if q == "std::make_pair":
        return struct({"first": I.ev(args[0]), "second": I.ev(args[1])})
    if q == "std::make_optional":
        return some(I.ev(args[0]))
    if q == "std::get":
        return std_get(I, fn, args, e, want_ref)
    if q == "std::holds_alternative":
        return I.unk("holds", e, "b")
    if q in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::ssize", "std::data", "std::empty"):
        r = I.lv(args[0])
        v = I._rd(r)
        if v.op == "struct" and dict(v.a[0]).get("$cls") is lit("span"):
            it, n = span_parts(I, v)
        else:
            it, n = mk("iter", r, ZERO), IN.slen_any(v)
        if base in ("size", "ssize"):
            return n
        if base == "empty":
            return eq_(n, ZERO)
        return it if base in ("begin", "cbegin", "data") else I.ptradd(it, n)
    if q in ("std::next", "std::prev"):
        it = I.ev(args[0])
        n = I.ev(args[1]) if len(args) > 1 else ONE
        return I.ptradd(it, n if q == "std::next" else neg(n))
    if q == "std::distance":
        return iter_len(I.ev(args[0]), I.ev(args[1]))
    if q == "std::advance":
        r = I.lv(args[0])
        I.wr(r, I.ptradd(I._rd(r), I.ev(args[1])))
        return lit(None)
    if q in ("std::back_inserter",):
        return mk("backins", I.lv(args[0]))
    if q in ALGOS:
        return ALGOS[q](I, args, e)
    if q.startswith("std::ranges::") and "std::" + base in ALGOS and args:
        return range_algo(I, base, args, e)
    if q in ("fmt::format", "std::format"):
        vals = fmt_args(I, args)
        return fmt_text(I, as_text(I, vals[0]), vals[1:])
    if q in ("std::to_string",):
        return selem(app("fmt", lit("to_string"), I.ev(args[0]), sort="text"))
    if q in ("fmt::print", "fmt::println", "std::print"):
        t0 = strip(I.tyof(args[0]))
        if t0 is not None and (tn(t0) in STREAMS or "basic_ostream" in tn(t0)):
            r = I.lv(args[0])
            vals = fmt_args(I, args[1:])
            txt = fmt_text(I, as_text(I, vals[0]), vals[1:])
            if base == "println":
                txt = scat([txt, selem(lit("\n"))])
            stream_write(I, r, txt)
            return lit(None)
        to = global_named(args[0])
        if to in ("stdout", "stderr"):
            args = args[1:]
        vals = fmt_args(I, args)
        if to != "stderr":
            to_stdout(I, scat([fmt_text(I, as_text(I, vals[0]), vals[1:]), selem(lit("\n")) if base == "println" else SEMPTY]))
        return lit(None)
    if q == "std::getline":
        return getline(I, args)
    if q == "fmt::join":
        return joined(I, args)
    if q == "fmt::streamed":
        return I.ev(args[0])
    if q == "std::stod" or q == "std::stof" or q == "std::strtod":
        x = as_text(I, I.ev(args[0]))
        r = by_case(number_in, x)
        r = r if r is not None else app("stod", x, sort="r")
        return IN.single(r) if q == "std::stof" else r
    if q in ("std::stoi", "std::stol", "std::stoul", "std::stoull", "std::stoll"):
        x = as_text(I, I.ev(args[0]))
        r = by_case(number_in, x)
        return r if r is not None and is_int(r) else app("stoi", x, sort="i")
    if q == "std::filesystem::operator/" or (q == "std::operator/" and len(args) == 2):
        a, b = as_text(I, I.ev(args[0])), as_text(I, I.ev(args[1]))
        return scat([a, selem(lit("/")), b])
    if q == "std::filesystem::exists":
        return app("exists", as_text(I, I.ev(args[0])), sort="b")
    if q == "std::filesystem::create_directories":
        I.ev(args[0])
        return FALSE
    if base in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(args) == 2:
        op = base[8:]
        ta, tb = strip(I.tyof(args[0])), strip(I.tyof(args[1]))
        a, b = I.ev(args[0]), I.ev(args[1])
        return compare_std(I, op, a, ta, b, tb)
    if base == "operator+" and len(args) == 2:
        ta, tb = strip(I.tyof(args[0])), strip(I.tyof(args[1]))
        a, b = I.ev(args[0]), I.ev(args[1])
        if any(tn(t) in STR for t in (ta, tb)):
            return scat([char_text(a, ta), char_text(b, tb)])
        return I.arith("+", a, b, IN.TYINT, e)
    if base == "operator-" and len(args) == 2 and cls.startswith("std::chrono"):
        for a in args:
            I.ev(a)
        return app("opaque", lit("duration"), sort="v")
    if base in ("operator-",) and len(args) == 2:
        return I.arith("-", I.ev(args[0]), I.ev(args[1]), IN.TYINT, e)
    if base == "operator|" and len(args) == 2:
        return app("bit|", I.ev(args[0]), I.ev(args[1]), sort="v")
    if base == "operator<<" and len(args) == 2:
        r = I.lv(args[0])
        t = strip(I.tyof(args[1]))
        v = I.ev(args[1])
        if tn(t) in STR or is_seq(v) or (t.c == "array") or (t.c == "ptr"):
            stream_write(I, r, as_text(I, v))
        elif is_char(t):
            stream_write(I, r, char_text(v, t))
        elif v.op == "fnv" or v.unk:
            stream_write(I, r, selem(lit("\n")))
        else:
            stream_write(I, r, selem(app("fmt", lit("<<"), v, sort="text")))
        return R(r)
    if q in ("std::chrono::duration_cast", "std::chrono::floor"):
        for a in args:
            I.ev(a)
        return app("opaque", lit("duration"), sort="v")
    if base == "now":
        return app("opaque", lit("clock"), sort="v")
    if q == "toml::parse_file":
        v = I.ev(args[0])
        t = v if v.op == "lit" else v.a[0] if v.op == "selem" and v.a[0].op == "lit" else v
        # the settings file every spec speaks about, or another one
        return app("toml", sort="v") if t.op == "lit" and t.a[0] is not None and "".join(t.a[0]) == "config" else mk("app", "toml", app("tomlfile", t, sort="text"), sort="v")
    if q in ("std::numeric_limits::infinity", "std::numeric_limits::max", "std::numeric_limits::lowest", "std::numeric_limits::min", "std::numeric_limits::epsilon", "std::numeric_limits::quiet_NaN"):
        return app("limit", lit(q), lit(str(I.tyof(e))), sort=IN.sort_of(I.tyof(e)))
    return None


def is_char(t):
    return t is not None and t.s.replace("const ", "").strip(" &") in ("char", "signed char", "unsigned char")


def is_text_type(t):
    return tn(t) in STR or tn(t) == "std::filesystem::path" or t.c in ("array", "ptr")


def fmt_args(I, args):
    """the arguments of a format string; a list of values is told from a text by its type"""
    out = []
    for a in args:
        t = strip(I.tyof(a)) if "t" in a else None
        v = I.ev(a)
        if t is not None and is_char(t) and not is_seq(v):
            v = char_text(v, t)
        out.append(v)
    return out


def joined(I, args):
    """fmt::join( range, separator ) or ( first, last, separator )"""
    if len(args) == 3:
        a, b = I.ev(args[0]), I.ev(args[1])
        if a.op != "iter":
            return None
        v, n, off = rdseq(I, a.a[0]), iter_len(a, b), a.a[1]
        k = fresh("k")
        set_range(k, n)
        v = sfor(n, k, selem(at(v, add(off, k))))
    else:
        v = as_list(I, args[0])
    if v is None:
        return None
    return mk("app", "joined", v, as_text(I, I.ev(args[-1])), sort="v")


def as_list(I, a):
    v = I.ev(a)
    if v.op == "struct" and dict(v.a[0]).get("$cls") is lit("span"):
        it, n = span_parts(I, v)
        s = rdseq(I, it.a[0])
        k = fresh("k")
        set_range(k, n)
        return sfor(n, k, selem(at(s, add(it.a[1], k))))
    return v if is_seq(v) else None


def join_text(v, sep, spec):
    """the texts of the elements with the separator between them"""
    n = slen(v)
    k = fresh("k")
    set_range(k, pos(sub(n, ONE)))
    rest = sfor(pos(sub(n, ONE)), k, scat([sep, as_seq(fmt_one(at(v, add(k, ONE)), spec))]))
    return ite(eq_(n, ZERO), SEMPTY, scat([as_seq(fmt_one(at(v, ZERO), spec)), rest]))


def char_text(v, t):
    if t.c == "int" and not is_seq(v):
        c = cval(v)
        if c is not None:
            return selem(lit(chr(int(c))))
        return selem(app("fmt", lit("c"), v, sort="text"))
    return v if is_seq(v) else as_seq(v)


def compare_std(I, op, a, ta, b, tb):
    isopt = lambda t: tn(t) in ("std::optional", "std::nullopt_t")
    if isopt(ta) or isopt(tb):
        x, y = opt_of(a), opt_of(b)
        hx, hy = field(x, "has"), field(y, "has")
        bothv = and_(hx, hy)
        if op in ("==", "!="):
            if bothv is FALSE:
                r = and_(not_(hx), not_(hy))
            else:
                r = or_(and_(not_(hx), not_(hy)), and_(bothv, I.compare("==", field(x, "val"), field(y, "val"))))
            return r if op == "==" else not_(r)
        vx, vy = field(x, "val"), field(y, "val")
        lt = lambda hx, vx, hy, vy: and_(hy, or_(not_(hx), I.compare("<", vx, vy) if and_(hx, hy) is not FALSE else FALSE))
        if op == "<":
            return lt(hx, vx, hy, vy)
        if op == ">":
            return lt(hy, vy, hx, vx)
        if op == "<=":
            return not_(lt(hy, vy, hx, vx))
        return not_(lt(hx, vx, hy, vy))
    if tn(ta) in STR or tn(tb) in STR:
        r = text_eq(as_text(I, a), as_text(I, b))
        if op == "==":
            return r
        if op == "!=":
            return not_(r)
        return app("?textcmp" + op, a, b, sort="b")
    return I.compare(op, a, b)


_textid = {}


def text_id(t):
    """texts as numbers: literals get distinct constants, other texts an opaque number"""
    if is_dd(t) and not is_seq(t):
        return lift_any(text_id, t)
    if t is SEMPTY:
        return const(1000)
    if t.op == "selem" and t.a[0].op == "lit":
        s = t.a[0].a[0]
        return const(_textid.setdefault(s, 1001 + len(_textid)))
    if t.op == "sopq":
        t = t.a[0]
    return app("strid", t, sort="u")


def text_eq(a, b):
    return eq_(text_id(a), text_id(b))


# ------------------------------------------------------------------ members


OUTSIDE = "outside of the container"


def inside(I, ref, i, e):
    """element i of the container at ref is about to be used"""
    if OUTSIDE not in I.trapkinds or ref.op != "ref" and not is_dd(ref):
        return
    n = IN.slen_any(I._rd(ref))
    I.trap(OUTSIDE, or_(FALSE if TT.is_nonneg(i) else lt_(i, ZERO), le_(n, i)), e)


def inside_at(I, p, e):
    """the element an iterator or pointer into a container is at"""
    if OUTSIDE in I.trapkinds and p.op == "iter" and p.a[0].op == "ref":
        inside(I, p.a[0], p.a[1], e)


def inside_range(I, p, n, e):
    """the n elements from an iterator or pointer on"""
    if OUTSIDE not in I.trapkinds or p.op != "iter" or p.a[0].op != "ref":
        return
    l = IN.slen_any(I._rd(p.a[0]))
    end = add(p.a[1], n)
    if end is not l:
        I.trap(OUTSIDE, and_(lt_(ZERO, n), or_(FALSE if TT.is_nonneg(p.a[1]) else lt_(p.a[1], ZERO), lt_(l, end))), e)


def iter_member(I, cls, base, fn, this, args, e):
    v = I._rd(this)
    if base == "operator*":
        inside_at(I, v, e)
        return R(I.deref(v))
    if base in ("operator++", "operator--"):
        d = 1 if base == "operator++" else -1
        n = I.incr(v, d)
        I.wr(this, n)
        return v if args else R(this)
    if base in ("operator+=", "operator-="):
        k = I.ev(args[0])
        I.wr(this, I.ptradd(v, k if base == "operator+=" else neg(k)))
        return R(this)
    if base == "operator+":
        return I.ptradd(v, I.ev(args[0]))
    if base == "operator-":
        return I.ptradd(v, neg(I.ev(args[0])))
    if base == "operator[]":
        v = I.ptradd(v, I.ev(args[0]))
        inside_at(I, v, e)
        return R(I.deref(v))
    if base == "operator->":
        inside_at(I, v, e)
        return v
    if base in ("operator==", "operator!="):
        return I.compare(base[8:], v, I.ev(args[0]))
    return None


def vec_member(I, cls, base, fn, this, args, e, want_ref):
    args = real_args(I, args)
    if base == "operator[]" or base == "at":
        i = I.ev(args[0])
        inside(I, this, i, e)
        return R(IN.refx(this, ("i", i)))
    if base in ("size", "length"):
        return IN.slen_any(I._rd(this))
    if base == "capacity":
        return app("opaque", lit("capacity"), sort="u")
    if base == "empty":
        return eq_(IN.slen_any(I._rd(this)), ZERO)
    if base in ("begin", "cbegin", "data"):
        return mk("iter", this, ZERO)
    if base in ("end", "cend"):
        return mk("iter", this, IN.slen_any(I._rd(this)))
    if base in ("front", "back", "pop_back") and I.trapkinds:
        I.trap("empty container", eq_(IN.slen_any(I._rd(this)), ZERO), e)
    if base == "front":
        return R(IN.refx(this, ("i", ZERO)))
    if base == "back":
        n = IN.slen_any(I._rd(this))
        return R(IN.refx(this, ("i", sub(n, ONE))))
    if base == "push_back":
        v = I.ev(args[0])
        if args[0].get("lv"):
            v = I.copyval(v)
        I.wr(this, app_seq(I, this, selem(v)))
        return lit(None)
    if base == "emplace_back":
        t = I.P.ty(fn.tu, fn.d["cls"]) if fn.d.get("cls") is not None else None
        et = t.a[0] if t is not None and t.a else None
        v = emplace(I, et, args, e)
        I.wr(this, app_seq(I, this, selem(v)))
        return R(IN.refx(this, ("i", sub(IN.slen_any(I._rd(this)), ONE))))
    if base == "pop_back":
        v = rdseq(I, this)
        I.wr(this, pop_back(v))
        return lit(None)
    if base == "clear":
        I.wr(this, SEMPTY)
        return lit(None)
    if base in ("reserve", "shrink_to_fit"):
        for a in args:
            I.ev(a)
        return lit(None)
    if base == "resize":
        n = I.ev(args[0])
        t = I.P.ty(fn.tu, fn.d["cls"]) if fn.d.get("cls") is not None else None
        fill = I.ev(args[1]) if len(args) > 1 else (I.default(t.a[0]) if t is not None and t.a else ZERO)
        v = rdseq(I, this)
        I.wr(this, lift_any(lambda m: IN.resize(v, m, fill), n) if is_dd(n) else IN.resize(v, n, fill))
        return lit(None)
    if base == "assign":
        at = [strip(I.tyof(a)) for a in args]
        if len(args) == 2 and is_iterty(at[0]) and is_iterty(at[1]):
            I.wr(this, iter_range(I, I.ev(args[0]), I.ev(args[1])))
        elif len(args) == 2:
            I.wr(this, fill_seq(I.ev(args[0]), I.ev(args[1])))
        else:
            I.wr(this, I.ev(args[0]))
        return lit(None)
    if base == "operator=":
        v = I.ev(args[0])
        I.wr(this, v)
        return R(this)
    if base == "swap":
        o = I.lv(args[0])
        a, b = I._rd(this), I._rd(o)
        I.wr(this, b)
        I.wr(o, a)
        return lit(None)
    if base == "erase" and len(args) == 2:
        a, b = I.ev(args[0]), I.ev(args[1])
        v = rdseq(I, this)
        if a.op == "iter" and b.op == "iter":
            n = slen(v)
            lo, hi = a.a[1], b.a[1]
            if hi is n:
                I.wr(this, IN.subseq(v, ZERO, lo))
            else:
                I.wr(this, scat([IN.subseq(v, ZERO, lo), IN.subseq(v, hi, sub(n, hi))]))
            return mk("iter", this, lo)
        return None
    if base == "erase" and len(args) == 1:
        a = I.ev(args[0])
        v = rdseq(I, this)
        if a.op == "iter":
            n, lo = slen(v), a.a[1]
            I.wr(this, scat([IN.subseq(v, ZERO, lo), IN.subseq(v, add(lo, ONE), sub(sub(n, lo), ONE))]))
            return mk("iter", this, lo)
        return None
    if base == "insert" and len(args) == 3:
        p = I.ev(args[0])
        rng = iter_range(I, I.ev(args[1]), I.ev(args[2]))
        v = rdseq(I, this)
        if p.op == "iter" and p.a[1] is slen(v):
            I.wr(this, scat([v, rng]))
            return p
        return None
    if base == "insert" and len(args) == 2:
        p = I.ev(args[0])
        x = I.ev(args[1])
        v = rdseq(I, this)
        if p.op == "iter" and p.a[1] is slen(v):
            I.wr(this, scat([v, selem(x)]))
            return p
        return None
    return None


def app_seq(I, r, part):
    v = I._rd(r)
    if v.unk and v.op == "app":
        return app("?append", v)
    v = v if is_seq(v) else as_seq(v)
    return scat([v, part])


def pop_back(v):
    if v.op == "selem":
        return SEMPTY
    if v.op == "scat" and v.a and v.a[-1].op == "selem":
        return scat(list(v.a[:-1]))
    n = slen(v)
    return IN.subseq(v, ZERO, sub(n, ONE)) if not is_dd(n) else as_seq(app("?pop", v))


def emplace(I, et, args, e):
    if et is None:
        return I.unk("emplace", e)
    if et.c != "record":
        return I.ev(args[0]) if args else I.default(et)
    r = construct(I, tn(et), et, args, e)
    if r is not None:
        return r
    if not args:
        return I.default(et)
    if len(args) == 1:
        t = strip(I.tyof(args[0]))
        if t.c == "record" and t.n == et.n:
            return I.copyval(I.ev(args[0]))
    return construct_record(I, et, args, e)


def construct_record(I, ty, args, e):
    rec = I.P.rec(ty)
    if rec is None:
        return I.unk("construct:" + ty.s, e)
    cands = []
    for m in rec.d.get("methods", []):
        g = I.P.fn(rec.tu, m["f"])
        if g is None or g.d.get("kind") != "ctor" or g.d.get("copy") or g.d.get("move"):
            continue
        ps = g.d.get("params", g.d.get("ps", []))
        if len(g.d.get("ps", [])) == len(args):
            cands.append(g)
    if len(cands) > 1:
        # prefer by parameter types
        def score(g):
            sc = 0
            for p, a in zip(g.d["ps"], args):
                pt, t = strip(I.P.ty(g.tu, p)), strip(I.tyof(a))
                if pt is t or (pt.s.replace("const ", "") == t.s.replace("const ", "")):
                    sc += 1
            return -sc

        cands.sort(key=score)
    if cands and cands[0].has_body:
        return I.construct(cands[0], ty, I.bind_args(cands[0], args))
    if not args:
        return I.default(ty)
    if not cands:
        return I.aggregate(ty, [I.ev(a) for a in args])
    return I.unk("construct:" + ty.s, e)


def make_unique(I, fn, args, e):
    rt = I.P.ty(fn.tu, fn.d["rt"])
    et = rt.a[0] if rt.a else None
    if et is None:
        return I.unk("make_unique", e)
    # the object lives on the heap; its address must exist before construction (self references)
    v = construct_record(I, et, args, e)
    r = I.newroot("heap", v)
    return r


def std_get(I, fn, args, e, want_ref):
    t = strip(I.tyof(args[0]))
    r = I.lv(args[0])
    n = t.n or ""
    if n == "std::variant":
        rt = strip(I.P.ty(fn.tu, fn.d["rt"]))
        v = I._rd(r)

        def one(x):
            if x.op == "variant":
                for k, y in x.a[0]:
                    if k == rt.s.replace("const ", ""):
                        return y
                return app("?badvariant", x)
            return x

        if v.op == "variant":
            return one(v)
        return R(r)
    if n in ("std::pair",):
        i = idx_targ(fn)
        return R(IN.refx(r, ("f", "first" if i == 0 else "second")))
    if n == "std::tuple":
        return R(IN.refx(r, ("f", f"_{idx_targ(fn)}")))
    if n == "std::array":
        return R(IN.refx(r, ("i", const(idx_targ(fn)))))
    return None


def idx_targ(fn):
    for x in fn.d.get("ta", []) or []:
        if isinstance(x, dict) and "v" in x:
            return int(x["v"])
        if isinstance(x, str) and x.isdigit():
            return int(x)
    m = re.search(r"get<(\d+)", fn.q)
    return int(m.group(1)) if m else 0


def str_member(I, cls, base, fn, this, args, e, want_ref):
    args = real_args(I, args)
    v = I._rd(this)
    if base in ("size", "length"):
        return IN.slen_any(v)
    if base == "empty":
        n = IN.slen_any(v)
        return eq_(n, ZERO)
    if base in ("find", "find_first_of", "rfind", "find_last_of", "find_first_not_of", "find_last_not_of"):
        t = strip(I.tyof(args[0]))
        x = I.ev(args[0])
        x = char_text(x, t) if t.c == "int" else as_text(I, x)
        p = I.ev(args[1]) if len(args) > 1 else (ZERO if not base.startswith("r") and "last" not in base else NPOS)
        if base == "find_first_of" and x.op == "selem" and x.a[0].op == "lit" and len(x.a[0].a[0]) == 1:
            base = "find"
        if base == "find" and x.op == "selem" and x.a[0].op == "lit" and len(x.a[0].a[0]) == 1 and is_seq(v):
            r = find_piece(v, x.a[0].a[0], p)
            if r is not None:
                return r
        return app("find", lit(base), as_seq(v) if not is_seq(v) else v, x, p, sort="i")
    if base == "substr":
        a = I.ev(args[0]) if args else ZERO
        n = I.ev(args[1]) if len(args) > 1 else NPOS
        return substr(as_text(I, v), a, n)
    if base in ("operator+=", "append", "push_back"):
        t = strip(I.tyof(args[0]))
        x = I.ev(args[0])
        x = char_text(x, t) if t.c == "int" else as_text(I, x)
        if base == "append" and len(args) > 1:
            return None
        I.wr(this, scat([as_text(I, v), x]))
        return R(this) if base != "push_back" else lit(None)
    if base in ("operator=", "assign") and len(args) == 1:
        x = I.ev(args[0])
        I.wr(this, as_text(I, x))
        return R(this)
    if base in ("operator[]", "at"):
        i = I.ev(args[0])
        return I.newroot_ref(app("charat", as_text(I, v), i, sort="i")) if False else app("charat", as_text(I, v), i, sort="i")
    if base in ("front", "back"):
        i = ZERO if base == "front" else sub(slen(as_text(I, v)), ONE)
        return app("charat", as_text(I, v), i, sort="i")
    if base == "clear":
        I.wr(this, SEMPTY)
        return lit(None)
    if base in ("reserve", "shrink_to_fit"):
        return lit(None)
    if base in ("c_str", "data", "operator basic_string_view"):
        return v
    if base in ("begin", "cbegin"):
        return mk("iter", this, ZERO)
    if base in ("end", "cend"):
        return mk("iter", this, IN.slen_any(v))
    if base in ("starts_with", "ends_with", "contains"):
        t = strip(I.tyof(args[0]))
        x = I.ev(args[0])
        x = char_text(x, t) if t.c == "int" else as_text(I, x)
        v = as_text(I, v)
        if base == "starts_with" and x.op == "selem" and x.a[0].op == "lit" and len(x.a[0].a[0]) == 1:
            return eq_(app("charat", v, ZERO, sort="i"), const(ord(x.a[0].a[0])))
        if base == "contains":
            return not_(eq_(app("find", lit("find"), v, x, ZERO, sort="i"), NPOS))
        return app("text_" + base, v, x, sort="b")
    if base == "compare":
        if len(args) > 1:
            return None
        return app("text_compare", as_text(I, v), as_text(I, I.ev(args[0])), sort="i")
    if base == "resize":
        n = I.ev(args[0])
        I.wr(this, as_seq(app("textresize", as_text(I, v), n, sort="text")))
        return lit(None)
    return None


def opt_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if base in ("has_value", "operator bool"):
        return lift_any(lambda x: field(opt_of(x), "has"), v)
    if base in ("value", "operator*", "operator->") and "no value" in I.trapkinds:
        I.trap("no value", not_(lift_any(lambda x: field(opt_of(x), "has"), v)), e)
    if base in ("value", "operator*"):
        if v.op == "struct":
            return R(IN.refx(this, ("f", "val")))
        return lift_any(lambda x: field(opt_of(x), "val"), v)
    if base == "operator->":
        return IN.refx(this, ("f", "val"))
    if base == "value_or":
        d = I.ev(args[0])
        o = opt_of(v)
        return ite(field(o, "has"), field(o, "val"), d)
    if base in ("operator=", "emplace"):
        if not args:
            I.wr(this, none_opt())
            return R(this)
        t = strip(I.tyof(args[0]))
        x = I.ev(args[0])
        if tn(t) in ("std::optional", "std::nullopt_t"):
            x = opt_of(x)
        else:
            x = some(x)
        I.wr(this, x)
        return R(this)
    if base == "reset":
        I.wr(this, none_opt())
        return lit(None)
    return None


def span_member(I, cls, base, fn, this, args, e, want_ref):
    it, n = span_parts(I, I._rd(this))
    if base == "size":
        return n
    if base == "empty":
        return eq_(n, ZERO)
    if base in ("begin", "data", "cbegin"):
        return it
    if base in ("end", "cend"):
        return I.ptradd(it, n)
    if base == "operator[]":
        i = I.ev(args[0])
        if OUTSIDE in I.trapkinds:
            I.trap(OUTSIDE, or_(FALSE if TT.is_nonneg(i) else lt_(i, ZERO), le_(n, i)), e)
        p = I.ptradd(it, i)
        inside_at(I, p, e)
        return R(I.deref(p))
    if base in ("front", "back") and I.trapkinds:
        I.trap("empty container", eq_(n, ZERO), e)
    if base == "front":
        return R(I.deref(it))
    if base == "back":
        return R(I.deref(I.ptradd(it, sub(n, ONE))))
    if base in ("subspan", "first", "last"):
        a = [I.ev(x) for x in args]
        if base == "first":
            return struct({"$cls": lit("span"), "it": it, "n": a[0]})
        if base == "last":
            return struct({"$cls": lit("span"), "it": I.ptradd(it, sub(n, a[0])), "n": a[0]})
        return struct({"$cls": lit("span"), "it": I.ptradd(it, a[0]), "n": a[1] if len(a) > 1 and a[1] is not NPOS else sub(n, a[0])})
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    return None


def pair_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    return None


def uptr_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if base in ("operator->", "get"):
        return v
    if base == "operator*":
        return R(I.deref(v))
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    if base == "operator bool":
        return I.boolean(v)
    if base == "reset":
        I.wr(this, I.ev(args[0]) if args else lit(None))
        return lit(None)
    return None


def dist_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if base == "operator()":
        return dist_draw(I, v, I.lv(args[0]))
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    if base in ("a", "min", "mean"):
        return field(v, "a")
    if base in ("b", "max", "stddev"):
        return field(v, "b")
    if base == "reset":
        return lit(None)
    return None


def seeded(I, seed):
    """an engine that starts over from its seed"""
    g = app("mt", seed, sort="v")
    I.st["$o" + str(g.id)] = ZERO
    return mk("gen", g)


def gen_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "operator=":
        x = I.ev(args[0])
        if args[0].get("lv"):
            x = I.copyval(x)
        I.wr(this, x)
        return R(this)
    if base == "operator()":
        return draw(I, this, "raw", (), "u")
    if base == "seed":
        I.wr(this, seeded(I, I.ev(args[0]) if args else const(5489)))
        return lit(None)
    return None


def set_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if base == "clear":
        I.wr(this, SEMPTY)
        return lit(None)
    if base in ("insert", "emplace"):
        if len(args) == 1:
            x = I.ev(args[0])
        elif len(args) == 2:
            t = I.P.ty(fn.tu, fn.d["cls"]) if fn.d.get("cls") is not None else None
            a0 = strip(I.tyof(args[0]))
            if is_iterty(a0):
                I.wr(this, scat([as_seq(v), iter_range(I, I.ev(args[0]), I.ev(args[1]))]))
                return lit(None)
            x = struct({"first": I.ev(args[0]), "second": I.ev(args[1])})
        else:
            return None
        new = lit(None) if v.unk and v.op == "app" else not_(seq_any(v, lambda y: I.equal(y, x)))
        if new.op == "lit":
            new = app("?inserted", v, x, sort="b")
        I.wr(this, app_seq(I, this, selem(x)))
        return struct({"first": app("opaque", lit("insertresult"), sort="v"), "second": new})
    if base == "size":
        if v is SEMPTY:
            return ZERO
        return app("nset", v, sort="u")
    if base in ("contains", "count"):
        x = I.ev(args[0])
        if v.unk and v.op == "app":
            return app("?contains", v, x, sort="b")
        r = seq_any(v, lambda y: I.equal(y, x))
        return r if base == "contains" else b2i(r)
    if base == "empty":
        return eq_(IN.slen_any(v), ZERO)
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    return None


def getline(I, args):
    """std::getline( stream, line [, delimiter] ) on a stream over a text"""
    r = I.lv(args[0])
    v = I._rd(r)
    to = I.lv(args[1])
    if len(args) > 2:
        d = char_text(I.ev(args[2]), strip(I.tyof(args[2])))
    else:
        d = selem(lit("\n"))
    if v.op != "struct" or dict(v.a[0]).get("$cls") is not lit("textstream"):
        return None
    text, p, ok, eof = (field(v, f) for f in ("content", "at", "ok", "eof"))
    text = as_text(I, text)
    n = slen(text)
    ready = and_(ok, not_(eof))
    have = and_(ready, lt_(p, n))
    end = None
    if d.op == "selem" and d.a[0].op == "lit" and len(d.a[0].a[0]) == 1:
        end = find_piece(text, d.a[0].a[0], p)
    if end is None:
        end = app("find", lit("find"), text, d, p, sort="i")
    hit = not_(eq_(end, NPOS))
    line = ite(hit, substr(text, p, sub(end, p)), substr(text, p, NPOS))
    old = as_text(I, I._rd(to))
    I.wr(to, ite(have, line, ite(ready, SEMPTY, old)))
    v = setfield(v, "at", ite(have, ite(hit, add(end, ONE), n), p))
    v = setfield(v, "ok", have)
    v = setfield(v, "eof", or_(eof, not_(hit)))
    I.wr(r, v)
    return R(r)


def textstream_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if base == "str" and v.op == "struct":
        if args:
            v = setfield(v, "content", as_text(I, I.ev(args[0])))
            I.wr(this, setfield(setfield(setfield(v, "at", ZERO), "ok", field(v, "ok")), "eof", field(v, "eof")))
            return lit(None)
        return field(v, "content")
    if base == "operator<<":
        return stream_member(I, cls, base, fn, this, args, e, want_ref)
    return ios_member(I, cls, base, fn, this, args, e, want_ref)


def ios_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if v.op == "struct" and dict(v.a[0]).get("$cls") is lit("textstream"):
        ok = field(v, "ok")
        if base in ("operator bool", "operator!", "fail", "good", "eof"):
            return {"operator bool": ok, "operator!": not_(ok), "fail": not_(ok), "good": and_(ok, not_(field(v, "eof"))), "eof": field(v, "eof")}[base]
        return None
    if base in ("operator bool", "operator!", "fail", "good", "eof", "is_open"):
        return stream_member(I, cls, base, fn, this, args, e, want_ref)
    return None


def stream_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "open":
        v = I._rd(this)
        p = as_text(I, I.ev(args[0]))
        m = modeflags(I.ev(args[1]) if len(args) > 1 else lit(""), cls)
        if v.op == "struct":
            v = setfield(setfield(v, "path", p), "mode", m)
            I.wr(this, v)
        return lit(None)
    if base == "close":
        close_stream(I, this)
        return lit(None)
    if base in ("operator<<",):
        a = args[0]
        while a.get("k") == "cast":
            a = a["e"]
        if a.get("k") == "fn":  # a manipulator
            name = I.P.tus[I.fr.fn.tu]["funcs"][a["f"]].get("q", "").split("<")[0]
            if name not in ("std::endl", "std::flush"):
                return None
            if name == "std::endl":
                stream_write(I, this, selem(lit("\n")))
            return R(this)
        v = I.ev(args[0])
        stream_write(I, this, selem(app("fmt", lit("<<"), v, sort="text")))
        return R(this)
    if base in ("flush",):
        return R(this)
    if base in ("is_open", "good", "operator bool", "operator!", "fail"):
        return app("streamok", sort="b") if base not in ("operator!", "fail") else not_(app("streamok", sort="b"))
    if base == "write":
        return None
    return None


def arr_member(I, cls, base, fn, this, args, e, want_ref):
    if base in ("operator[]", "at"):
        return R(IN.refx(this, ("i", I.ev(args[0]))))
    if base == "fill":
        v = rdseq(I, this)
        n = slen(v)
        I.wr(this, fill_seq(n, I.ev(args[0])))
        return lit(None)
    return vec_member(I, cls, base, fn, this, args, e, want_ref)


def bitref_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "operator=":
        I.wr(this, I.boolean(I.ev(args[0])))
        return R(this)
    if base == "operator bool":
        return I._rd(this)
    return None


def variant_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    return None


def pq_new(I, ty, cmp):
    """an empty priority queue: its order as a function of the fields of two items, its history of pushes and pops, its size"""
    if cmp is None:
        ct = ty.a[2] if len(ty.a) > 2 else None
        if ct is None:
            cmp = mk("stdop", "<")
        elif ct.lam:
            cmp = I.lamvals.get(ct.s)
            if cmp is None:
                return I.unk("priority queue ordered by an unseen lambda", None)
        else:
            cmp = I.default(ct)
    item = I.default(ty.a[0])
    if item.op == "struct":
        names = [k for k, v in item.a[0] if not k.startswith("$")]
        sorts = [dict(item.a[0])[k].sort for k in names]
    else:
        names, sorts = [], [item.sort]
    if any(x not in ("i", "u", "r", "b") for x in sorts):
        return I.unk("priority queue of such items", None)
    xs, ys = [[fresh("q", sort=x) for x in sorts] for _ in range(2)]

    def build(zs):
        if not names:
            return zs[0]
        d = dict(item.a[0])
        d.update(zip(names, zs))
        return struct(d)

    a, b = build(xs), build(ys)
    if cmp.op == "stdop" and names:
        o = {"<": lt_, ">": lambda p, q: lt_(q, p)}.get(cmp.a[0])
        if o is None:
            return I.unk("priority queue in such an order", None)
        r = FALSE
        for x, y in reversed(list(zip(xs, ys))):
            r = or_(o(x, y), and_(eq_(x, y), r))
    else:
        r, isref = I.apply(cmp, [I.newroot("q", a), I.newroot("q", b)])
        r = I.rd(r) if isref else r
    for z in reversed(xs + ys):
        r = lam(z, r)
    return struct({"$cls": lit("pq"), "items": app("pq0", sort="v"), "size": ZERO, "before": r, "fields": lit(tuple(names)), "sorts": lit(tuple(sorts)), "item": item})


def pq_member(I, cls, base, fn, this, args, e, want_ref):
    v = I._rd(this)
    if v.op != "struct" or "items" not in dict(v.a[0]):
        return I.unk("priority queue in such a state", e)
    d = dict(v.a[0])
    names, sorts = d["fields"].a[0], d["sorts"].a[0]
    if base in ("push", "emplace"):
        if len(args) == len(names) and len(args) > 1:
            x = struct(dict(dict(d["item"].a[0]), **{k: I.ev(y) for k, y in zip(names, args)}))
        elif len(args) == 1:
            x = I.ev(args[0])
        else:
            return None
        if x.op == "ref":
            x = I.rd(x)
        v = I._rd(this)
        d = dict(v.a[0])
        xs = [field(x, k) for k in names] if names else [x]
        d["items"] = app("pqpush", d["items"], d["before"], *xs, sort="v")
        d["size"] = add(d["size"], ONE)
        I.wr(this, struct(d))
        return lit(None)
    if base in ("top", "pop"):
        I.trap("empty container", eq_(d["size"], ZERO), e)
    if base == "pop":
        d["items"] = app_pop(d["items"], d["before"])
        d["size"] = sub(d["size"], ONE)
        I.wr(this, struct(d))
        return lit(None)
    if base == "top":
        xs = [app_top(d["items"], d["before"], lit(k), so) for k, so in enumerate(sorts)]
        if not names:
            return xs[0]
        return struct(dict(dict(d["item"].a[0]), **dict(zip(names, xs))))
    if base == "size":
        return d["size"]
    if base == "empty":
        return eq_(d["size"], ZERO)
    return None


def app_top(q, before, k, sort="v"):
    def f(x):
        if x.op == "app" and x.a[0] == "pqpush" and x.a[1].op == "app" and x.a[1].a[0] == "pq0":
            return x.a[3 + k.a[0]]
        return app("pqtop", x, before, k, sort=sort)

    return TT.lift_any(f, q)


def app_pop(q, before):
    def f(x):
        if x.op == "app" and x.a[0] == "pqpush" and x.a[1].op == "app" and x.a[1].a[0] == "pq0":
            return x.a[1]
        return app("pqpop", x, before, sort="v")

    return TT.lift_any(f, q)


def rd_member(I, cls, base, fn, this, args, e, want_ref):
    if base == "operator()":
        return app("randomdevice", sort="u")
    return None


def misc_member(I, cls, base, fn, this, args, e, want_ref):
    if cls.startswith("std::filesystem::path"):
        v = I._rd(this)
        if base in ("string", "c_str", "native", "u8string", "generic_string", "operator basic_string"):
            return v
        if base == "operator=":
            I.wr(this, as_text(I, I.ev(args[0])))
            return R(this)
        if base in ("operator/=", "append"):
            x = as_text(I, I.ev(args[0]))
            I.wr(this, scat([as_text(I, v), selem(lit("/")), x]))
            return R(this)
        if base == "empty":
            return eq_(slen(as_text(I, v)), ZERO)
        return None
    for a in args:
        I.ev(a)
    return app("opaque", lit("chrono"), sort="v")


# toml: a table is app("toml", key, key, ...); value<T>() reads it

NOFILE = app("tomlfile", sort="text")  # a table that was never read

def toml_key(I, a):
    v = I.ev(a)
    if v.op == "selem" and v.a[0].op == "lit":
        return v.a[0]
    w = text_id(v)
    if cval(w) is None:
        # one text on this path?
        for x, i in list(_textid.items()):
            if not I.feasible(eq_(w, const(i)))[1]:
                return lit(x)
    return v.a[0] if v.op == "selem" else v


def toml_member(I, cls, base, fn, this, args, e, want_ref):
    if cls.startswith("argparse::"):
        if base == "add_argument":
            # the names of one argument
            names = [lit("".join(x.a[0] if x.op == "lit" else x.a[0].a[0])) for x in (I.ev(a) for a in args) if x.op in ("lit", "selem") and isinstance((x if x.op == "lit" else x.a[0]).a[0], str)]
            for x in names:
                I.argnames[x] = names[-1]
            return app("argparse", sort="v")
        if base in ("get", "present"):
            k = toml_key(I, args[0])
            k = I.argnames.get(k, k)
            t = app("cli", k, sort="text")
            parsed = I.st.get("$parsed", FALSE)
            if base == "get":
                return ite(parsed, as_seq(t), as_seq(app("cli:unparsed", k, sort="text")))
            return struct({"has": and_(parsed, app("cli:has", k, sort="b")), "val": as_seq(t)})
        for a in args:
            I.ev(a)
        if base in ("parse_args", "parse_known_args"):
            I.st["$parsed"] = TRUE
        return app("argparse", sort="v")
    v = I._rd(this)
    nothing = v.op == "app" and v.a[0] == "toml" and len(v.a) > 1 and v.a[1] == NOFILE
    if base in ("operator[]", "at_path"):
        k = toml_key(I, args[0])
        if v.op == "app" and v.a[0] == "toml":
            return mk("app", "toml", *v.a[1:], k, sort="v")
        return None
    if base in ("value", "value_or", "value_exact"):
        rt = strip(I.P.ty(fn.tu, fn.d["rt"]))
        vt = rt.a[0] if base != "value_or" and rt.a else rt
        if v.op == "app" and v.a[0] == "tomlelem" and base != "value_or" and vt.c in ("int", "float"):
            # a number is converted; an integer is not made of a fraction
            so = IN.sort_of(vt)
            c = mk("app", "toml:isint", v, sort="b")
            ei, ef = (mk("app", "tomlval", mk("app", "tomlelem", v.a[1], v.a[2], lit(k), sort="v"), sort="i" if k == "int" else "r") for k in ("int", "float"))
            if so != "r":
                return struct({"has": or_(c, app("toml:whole", ef, sort="b")), "val": ite(c, ei, app("toml:rounded", ef, sort=so))})
            return struct({"has": TRUE, "val": ite(c, ei, ef)})
        ks = v.a[1:] if v.op == "app" and v.a[0] == "toml" else (v,)
        has = FALSE if nothing else app("toml:has", *ks, lit(kind_of(vt)), sort="b")
        so = IN.sort_of(vt)
        val = app("toml:val", *ks, lit(kind_of(vt)), sort=so if so != "v" else "text")
        if so == "v":
            val = as_seq(val)
        if base == "value_or":
            return ite(has, val, I.ev(args[0]))
        return struct({"has": has, "val": val})
    if base == "operator=":
        I.wr(this, I.ev(args[0]))
        return R(this)
    if base == "is_array":
        if nothing:
            return FALSE
        return app("toml:isarray", *v.a[1:], sort="b") if v.op == "app" else None
    if base in ("as_array",):
        if v.op != "app" or v.a[0] != "toml":
            return None
        c = FALSE if nothing else app("toml:isarray", *v.a[1:], sort="b")
        may, maynot = I.feasible(c)[:2]
        return this if not maynot else lit(None) if not may else ite(c, this, lit(None))
    if base in ("size", "empty") and v.op == "app" and v.a[0] == "toml":
        n = toml_length(v)
        return n if base == "size" else eq_(n, ZERO)
    if base == "for_each":
        c = I.ev(args[0])
        n = toml_length(v)
        idx = I.newroot("alg", ZERO)

        def head():
            return lt_(I._rd(idx), n)

        def body():
            i = I._rd(idx)
            el = toml_element(v, i)
            for_each_elem(I, c, el, e)

        def inc():
            I.wr(idx, add(I._rd(idx), ONE))

        I.loop(head, body, inc, e)
        return lit(None)
    if base in ("is_integer", "is_floating_point"):
        if v.op == "app" and v.a[0] == "tomlelem":
            # the element's dynamic type is the overload that is chosen
            ty = v.a[3].a[0] if len(v.a) > 3 else None
            if ty is not None:
                return TRUE if (ty == "int") == (base == "is_integer") else FALSE
            c = mk("app", "toml:isint", v, sort="b")
            return c if base == "is_integer" else not_(c)
        return None
    if base == "is_number" and v.op == "app" and v.a[0] == "tomlelem":
        return TRUE
    if base in ("as_integer", "as_floating_point"):
        if v.op == "app" and v.a[0] == "tomlelem" and len(v.a) < 4:
            c = mk("app", "toml:isint", v, sort="b")
            x = I.newroot("el", mk("app", "tomlelem", v.a[1], v.a[2], lit("int" if base == "as_integer" else "float"), sort="v"))
            c = c if base == "as_integer" else not_(c)
            may, maynot = I.feasible(c)[:2]
            return x if not maynot else ite(c, x, lit(None))
        return this
    if base == "get":
        if v.op == "app" and v.a[0] == "tomlelem":
            t = strip(I.P.ty(fn.tu, fn.d["rt"]))
            return mk("app", "tomlval", v, sort=IN.sort_of(t))
        return None
    return None


def toml_length(v):
    if is_dd(v):
        return lift_any(toml_length, v)
    if v.op != "app" or v.a[0] != "toml":
        return app("?toml length", sort="u")
    return ZERO if len(v.a) > 1 and v.a[1] == NOFILE else app("toml:len", *v.a[1:], sort="u")


def toml_element(v, i):
    return mk("app", "tomlelem", v, i, sort="v")


def for_each_elem(I, c, el, e):
    """toml::array::for_each calls the overload of the element's dynamic type"""
    if c.op != "clo":
        I.unk("for_each", e)
        return
    tu, fs = I.clos[c.a[0]]
    cands = [I.P.fn(tu, f) for f in fs]
    ints = flts = None
    for f in cands:
        if f is None or not f.has_body:
            continue
        t = I.P.ty(f.tu, f.d["ps"][0]).s
        if "value<long" in t or "value<int64" in t:
            ints = f
        elif "value<double" in t:
            flts = f
    if ints is None or flts is None:
        I.unk("for_each-overloads", e)
        return
    cond = mk("app", "toml:isint", el, sort="b")
    ri = I.newroot("el", mk("app", "tomlelem", el.a[1], el.a[2], lit("int"), sort="v"))
    rf = I.newroot("el", mk("app", "tomlelem", el.a[1], el.a[2], lit("float"), sort="v"))
    I.fork(cond, lambda: (I.apply(c, [ri], fn=ints), None)[1], lambda: (I.apply(c, [rf], fn=flts), None)[1])


def kind_of(t):
    if t.c == "int":
        return "int"
    if t.c == "bool":
        return "bool"
    if t.c == "float":
        return "float"
    if t.c == "enum":
        return "enum"
    return "text"


CLASSES = {
    "std::vector": vec_member,
    "std::deque": vec_member,
    "std::_Bit_reference": bitref_member,
    "std::basic_string": str_member,
    "std::basic_string_view": str_member,
    "std::optional": opt_member,
    "std::_Optional_base_impl": opt_member,
    "std::span": span_member,
    "std::pair": pair_member,
    "std::array": arr_member,
    "std::initializer_list": vec_member,
    "std::unique_ptr": uptr_member,
    "std::shared_ptr": uptr_member,
    "std::uniform_real_distribution": dist_member,
    "std::uniform_int_distribution": dist_member,
    "std::normal_distribution": dist_member,
    "std::bernoulli_distribution": dist_member,
    "std::mersenne_twister_engine": gen_member,
    "std::set": set_member,
    "std::unordered_set": set_member,
    "std::basic_fstream": stream_member,
    "std::basic_ofstream": stream_member,
    "std::basic_ios": ios_member,
    "std::basic_stringstream": textstream_member,
    "std::basic_istringstream": textstream_member,
    "std::basic_ostringstream": textstream_member,
    "std::basic_ostream": stream_member,
    "std::variant": variant_member,
    "std::priority_queue": pq_member,
    "std::random_device": rd_member,
}


# ------------------------------------------------------------------ algorithms


def _three(I, args):
    return I.ev(args[0]), I.ev(args[1])


def alg_fill(I, args, e):
    a, b = _three(I, args)
    v = I.ev(args[2])
    write_range(I, a, iter_len(a, b), lambda k: v)
    return lit(None)


def alg_fill_n(I, args, e):
    a = I.ev(args[0])
    n = I.ev(args[1])
    v = I.ev(args[2])
    write_range(I, a, n, lambda k: v)
    return I.ptradd(a, n)


def alg_iota(I, args, e):
    a, b = _three(I, args)
    v = I.ev(args[2])
    write_range(I, a, iter_len(a, b), lambda k: add(v, k))
    return lit(None)


def alg_copy(I, args, e):
    a, b = _three(I, args)
    o = I.ev(args[2])
    src = iter_range(I, a, b)
    if o.op == "backins":
        I.wr(o.a[0], scat([rdseq(I, o.a[0]), src if is_seq(src) else as_seq(src)]))
        return o
    n = iter_len(a, b)
    write_range(I, o, n, lambda k: at(src, k))
    return I.ptradd(o, n)


def alg_transform(I, args, e):
    first, last = _three(I, args)
    n = iter_len(first, last)
    two = len(args) == 5
    s2 = I.ev(args[2]) if two else None
    o = I.ev(args[3 if two else 2])
    f = I.ev(args[-1])

    def body(r, i):
        q = I.ptradd(s2, i) if two else None
        if two:
            inside_at(I, q, e)
        xs = [r] + ([I.deref(q)] if two else [])
        v, isref = I.apply(f, xs)
        v = I.rd(v) if isref else v
        if o.op == "backins":
            I.wr(o.a[0], scat([rdseq(I, o.a[0]), selem(v)]))
        else:
            q = I.ptradd(o, i)
            inside_at(I, q, e)
            I.wr(I.deref(q), v)

    over(I, first, n, body, e)
    return o if o.op == "backins" else I.ptradd(o, n)


def alg_for_each(I, args, e):
    a, b = _three(I, args)
    f = I.ev(args[2])
    over(I, a, iter_len(a, b), lambda r, i: I.apply(f, [r]), e)
    return f


def alg_accumulate(I, args, e):
    a, b = _three(I, args)
    acc = I.newroot("acc", I.ev(args[2]))
    f = I.ev(args[3]) if len(args) > 3 else mk("stdop", "+")

    def body(r, i):
        v, isref = I.apply(f, [I._rd(acc), I.rd(r)] if f.op == "stdop" else [acc, r])
        I.wr(acc, I.rd(v) if isref else v)

    over(I, a, iter_len(a, b), body, e)
    return I._rd(acc)


def alg_transform_reduce(I, args, e):
    ats = [strip(I.tyof(a)) for a in args]
    if len(args) == 4 and is_iterty(ats[2]):  # (f1,l1,f2,init)
        return inner(I, args, e)
    if len(args) == 6:
        return inner(I, args, e)
    a, b = _three(I, args)
    acc = I.newroot("acc", I.ev(args[2]))
    red = I.ev(args[3])
    f = I.ev(args[4])

    def body(r, i):
        v, isref = I.apply(f, [r])
        v = I.rd(v) if isref else v
        w, isref = I.apply(red, [I._rd(acc), v])
        I.wr(acc, I.rd(w) if isref else w)

    over(I, a, iter_len(a, b), body, e)
    return I._rd(acc)


def inner(I, args, e):
    a, b = _three(I, args)
    c = I.ev(args[2])
    acc = I.newroot("acc", I.ev(args[3]))
    op1 = I.ev(args[4]) if len(args) > 4 else mk("stdop", "+")
    op2 = I.ev(args[5]) if len(args) > 5 else mk("stdop", "*")

    def body(r, i):
        q = I.ptradd(c, i)
        inside_at(I, q, e)
        y = I.deref(q)
        v, isref = I.apply(op2, [r, y])
        v = I.rd(v) if isref else v
        w, isref = I.apply(op1, [I._rd(acc), v])
        I.wr(acc, I.rd(w) if isref else w)

    over(I, a, iter_len(a, b), body, e)
    return I._rd(acc)


def quant(kind):
    def f(I, args, e):
        a, b = _three(I, args)
        p = I.ev(args[2])
        acc = I.newroot("acc", FALSE)

        def body(r, i):
            v, isref = I.apply(p, [r])
            v = I.boolean(I.rd(v) if isref else v)
            I.wr(acc, or_(I._rd(acc), v if kind != "all" else not_(v)))

        over(I, a, iter_len(a, b), body, e)
        r = I._rd(acc)
        return r if kind == "any" else not_(r)

    return f


def alg_is_sorted(I, args, e):
    """No element that is smaller than the one before it."""
    a, b = _three(I, args)
    cmp = I.ev(args[2]) if len(args) > 2 else None
    acc = I.newroot("acc", FALSE)
    n = iter_len(a, b)

    def body(r, i):
        y = I.deref(I.ptradd(a, add(i, ONE)))
        if cmp is None:
            v = I.compare("<", I.rd(y), I.rd(r))
        else:
            v, isref = I.apply(cmp, [y, r])
            v = I.boolean(I.rd(v) if isref else v)
        I.wr(acc, or_(I._rd(acc), v))

    over(I, a, ite(lt_(n, const(1)), ZERO, sub(n, ONE)), body, e)
    return not_(I._rd(acc))


def alg_count_if(I, args, e):
    a, b = _three(I, args)
    p = I.ev(args[2])
    acc = I.newroot("acc", ZERO)

    def body(r, i):
        v, isref = I.apply(p, [r])
        v = I.boolean(I.rd(v) if isref else v)
        I.wr(acc, add(I._rd(acc), b2i(v)))

    over(I, a, iter_len(a, b), body, e)
    return I._rd(acc)


def alg_count(I, args, e):
    a, b = _three(I, args)
    x = I.ev(args[2])
    acc = I.newroot("acc", ZERO)
    over(I, a, iter_len(a, b), lambda r, i: I.wr(acc, add(I._rd(acc), b2i(I.compare("==", I.rd(r), x)))), e)
    return I._rd(acc)


def alg_find(I, args, e):
    a, b = _three(I, args)
    x = I.ev(args[2])
    src = iter_range(I, a, b)
    n = iter_len(a, b)
    s = fresh("q")
    set_range(s, n if not is_dd(n) else None)
    c = I.compare("==", at(as_seq(src), s), x)
    return I.ptradd(a, ite(any_(n, s, c), IN.first_(c, s, n), n))


def alg_sort(I, args, e):
    a, b = _three(I, args)
    if a.op != "iter":
        return None
    src = iter_range(I, a, b)
    n = iter_len(a, b)
    k = fresh("q")
    set_range(k, n if not is_dd(n) else None)
    so = elem_sort(as_seq(src)) or "v"
    x, y = fresh("x", sort=so), fresh("y", sort=so)
    if len(args) > 2:
        f = I.ev(args[2])
        if I.trapkinds:
            over(I, a, n, lambda r, i: I.apply(f, [r, r]), e)
        k0 = len(I.trapped)
        v, isref = I.apply(f, [I.newroot("x", x), I.newroot("y", y)])
        c = I.boolean(I.rd(v) if isref else v)
        del I.trapped[k0:]  # of arbitrary operands; those of the range have been looked at
    else:
        c = I.compare("<", x, y)
    t = as_seq(app("sorted", n, lam(k, at(as_seq(src), k)), lam(x, lam(y, c)), sort="[" + so))
    if a.a[1] is ZERO:
        full = I._rd(a.a[0])
        if IN.slen_any(full) is n:
            I.wr(a.a[0], t)
            return lit(None)
    write_range(I, a, n, lambda j: at(t, j))
    return lit(None)


def user_iterator(I, v):
    """the increment, dereference and comparison of a user-defined iterator"""
    cls = {field(x, "$cls").a[0] for x in (dd_leaves(v) if is_dd(v) else [v]) if x.op == "struct" and dict(x.a[0]).get("$cls") is not None}
    if len(cls) != 1:
        return None
    rec = I.findrec(cls.pop())
    if rec is None:
        return None
    ops = {}
    for m in rec.d.get("methods", []):
        g = I.P.fn(rec.tu, m["f"])
        if g is not None and g.has_body:
            n, k = g.d.get("n"), len(g.d.get("ps", []))
            if (n, k) in (("operator++", 0), ("operator*", 0), ("operator==", 1), ("operator!=", 1)):
                ops[n[8:]] = g
    if "++" in ops and "*" in ops and ("==" in ops or "!=" in ops):
        return ops
    return None


def population(I, a, b, e):
    """the sequence a user-defined iterator range [a, b) enumerates"""
    ops = user_iterator(I, a)
    if ops is None:
        return None
    cur, last, out = I.newroot("it", a), I.newroot("last", b), I.newroot("pop", SEMPTY)

    def val(r):
        v, isref = r
        return I.rd(v) if isref else v

    def head():
        if "==" in ops:
            return not_(I.boolean(val(I.call(ops["=="], cur, [last], e))))
        return I.boolean(val(I.call(ops["!="], cur, [last], e)))

    def body():
        x = val(I.call(ops["*"], cur, [], e))
        I.wr(out, scat([I._rd(out), selem(x)]))

    I.loop(head, body, lambda: I.call(ops["++"], cur, [], e), e)
    return I._rd(out)


def alg_sample(I, args, e):
    """min( k, size ) elements of the range, in the order of the range"""
    a, b = I.ev(args[0]), I.ev(args[1])
    out, k = I.ev(args[2]), I.ev(args[3])
    gref = I.lv(args[4])
    if a.op == "iter" or a.op == "lit":
        P = as_seq(iter_range(I, a, b))
    else:
        P = population(I, a, b, e)
    g = I._rd(gref)
    if g.op == "ref":
        g = I._rd(g)
    if P is None or g.op != "gen" or out.op != "iter":
        return None
    P = tidy(P)
    n = prune(IN.slen_any(P))
    gid = g.a[0]
    key = "$o" + str(gid.id)
    o = I.st.get(key, ZERO)
    I.st[key] = add(o, ONE)
    I.draws.append(("sample", I.fr.fn.q if I.fr and I.fr.fn else "?"))
    m = min_(k, n)

    def element(j):
        pos = lift_any(lambda nn: lift_any(lambda kk: lift_any(lambda oo: at(as_seq(app("spos", nn, kk, gid, oo, *I.loopsyms, sort="[u")), j), o), k), n)
        return lift_any(lambda p: at(P, p), pos)

    write_range(I, out, m, element)
    return I.ptradd(out, m)


def alg_minmax_element(op):
    def f(I, args, e):
        return None

    return f


ALGOS = {
    "std::fill": alg_fill,
    "std::fill_n": alg_fill_n,
    "std::iota": alg_iota,
    "std::copy": alg_copy,
    "std::transform": alg_transform,
    "std::for_each": alg_for_each,
    "std::accumulate": alg_accumulate,
    "std::reduce": lambda I, a, e: alg_accumulate(I, a, e) if len(a) > 2 else None,
    "std::transform_reduce": alg_transform_reduce,
    "std::inner_product": inner,
    "std::any_of": quant("any"),
    "std::all_of": quant("all"),
    "std::none_of": quant("none"),
    "std::is_sorted": alg_is_sorted,
    "std::count_if": alg_count_if,
    "std::count": alg_count,
    "std::find": alg_find,
    "std::sample": alg_sample,
    "std::sort": alg_sort,
    "std::stable_sort": alg_sort,
}


def range_algo(I, base, args, e):
    return None


# ------------------------------------------------------------------ intrinsics of the harness language (spec/vf.hpp)


def name_of(I, a):
    v = I.ev(a)
    if v.op == "iter":
        v = I._rd(v.a[0])
    if v.op == "selem":
        v = v.a[0]
    return v


def intrinsic(I, q, fn, args, e):
    base = q.split("::")[-1]
    if base in ("real", "size", "integer", "boolean", "index", "text"):
        nm = name_of(I, args[0])
        rest = [I.ev(a) for a in args[1:]]
        if base == "real":
            return app("in", nm, *rest, sort="r")
        if base == "size":
            return app("in", nm, *rest, sort="u")
        if base == "integer":
            return app("in", nm, *rest, sort="i")
        if base == "boolean":
            return app("in", nm, *rest, sort="b")
        if base == "index":
            return app("idx", nm, rest[0], *rest[1:], sort="u")
        return as_seq(app("in", nm, *rest, sort="text"))
    if base == "pick":
        nm = name_of(I, args[0])
        n = I.ev(args[1])
        s = fresh("k", sort="u")
        set_range(s, n if not is_dd(n) else None)
        I.picks[s] = n
        if is_dd(n):
            I.exit("assume", le_(n, s))
        return s
    if base == "generator":
        return mk("gen", lit("g:" + name_of(I, args[0]).a[0]))
    if base in ("same", "lemma", "exactly"):
        label = name_of(I, args[0])
        a, b = I.ev(args[1]), I.ev(args[2])
        I.obls.append(("lemma:" * (base == "lemma") + "exactly:" * (base == "exactly") + label.a[0], a, b, I.path, I.pathctx(), I.P.loc(I.fr.fn, e.get("l"))))
        return lit(None)
    if base == "holds":
        label = name_of(I, args[0])
        a = I.boolean(I.ev(args[1]))
        I.obls.append((label.a[0], a, TRUE, I.path, I.pathctx(), I.P.loc(I.fr.fn, e.get("l"))))
        return lit(None)
    if base == "assume":
        c = I.boolean(I.ev(args[0]))
        I.exit("assume", not_(c))
        return lit(None)
    if base == "throws":
        f = I.ev(args[0])
        saved = I.fr.exits
        p0 = I.path
        I.fr.exits = []
        I.path = TRUE
        k0 = len(I.trapped)
        I.apply(f, [])
        I.trapped_under(k0, lambda c: IN.prune(and_(p0, c)))
        th = FALSE
        st = I.st
        for c, xst, k, v in I.fr.exits:
            if k == "throw":
                th = or_(th, c)
                st = I.merge(c, xst, st)
            else:
                saved.append((and_(p0, c), xst, k, v))
        I.fr.exits = saved
        I.st = st
        I.path = p0
        return th
    if base == "argument":
        k = name_of(I, args[0])
        return struct({"has": app("cli:has", k, sort="b"), "val": as_seq(app("cli", k, sort="text"))})
    if base == "run_program":
        for f in I.P.fns.values():
            if f.q == "main" and f.has_body:
                return I.call(f, None, [ZERO, lit(None)], e)[0]
        raise AnalysisError("no main function")
    if base in ("replace", "replace_within"):
        f = I.ev(args[1])
        n = name_of(I, args[0]).a[0]
        (I.replaced if base == "replace" else I.replaced_within)[n] = f
        I.replacers.add((n, f))
        return lit(None)
    if base == "restore":
        I.replaced.pop(name_of(I, args[0]).a[0], None)
        I.replaced_within.pop(name_of(I, args[0]).a[0], None)
        return lit(None)
    if base in ("mark", "rewind"):
        g = "$o" + str(lit("g:" + name_of(I, args[0]).a[0]).id)
        if base == "mark":
            I.st["$m" + g] = I.st.get(g, ZERO)
        else:
            I.st[g] = I.st.get("$m" + g, ZERO)
        return lit(None)
    if base in ("lines", "entries"):
        v = as_text(I, I.rd(I.lv(args[0])) if args[0].get("lv") else I.ev(args[0]))
        r = entries(v) if base == "entries" else None
        return r if r is not None else as_seq(app(base, v, sort="[text"))
    if base == "files":
        return I.st["$files"]
    if base == "printed":
        return I.st.get("$printed", SEMPTY)
    if base == "clear_printed":
        I.st["$printed"] = SEMPTY
        return lit(None)
    if base == "clear_files":
        I.st["$files"] = SEMPTY
        return lit(None)
    if base == "engine_draws":
        return lit(None)
    return NotImplemented
