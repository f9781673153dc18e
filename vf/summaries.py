"""Opaque summaries of operations that other properties decide (sampling: C18, C19; components: C15; erfinv; file text)."""
from terms import *
import terms as TT
import interp as IN


def scc(I, fn, this, args, e):
    return as_seq(app("scc", sort="v"))


def _next(I, gref):
    g = I._rd(gref)
    if g.op == "ref":
        g = I._rd(g)
    if g.op != "gen":
        return None, None
    gid = g.a[0]
    k = "$o" + str(gid.id)
    o = I.st.get(k, ZERO)
    I.st[k] = add(o, ONE)
    return gid, o


def unique(I, fn, this, args, e):
    """draw_unique_k_from_n( ignore, k, n, buffer, gen ): min( k, available ) distinct numbers below n"""
    vals = I.bind_args(fn, args)
    ig, k, n, buf, gen = vals
    import stdlib

    ig = stdlib.opt_of(I._rd(ig) if ig.op == "ref" else ig)
    k, n = [I._rd(x) if x.op == "ref" else x for x in (k, n)]
    gid, o = _next(I, gen)
    if gid is None:
        return None
    I.draws.append(("unique", I.fr.fn.q if I.fr.fn else "?"))
    has, val = field(ig, "has"), field(ig, "val")
    if val.op == "noval":
        val = ZERO
    val = ite(has, val, n)
    t = TT.lift_any(lambda oo: app("uniq", n, k, val, gid, oo, *I.loopsyms, sort="[u"), o)
    I.wr(buf, as_seq(t))
    return lit(None)


def expj(I, fn, this, args, e):
    """reservoir_sampling_A_ExpJ( k, n, weight, buffer, gen ): min( k, n ) distinct numbers below n"""
    vals = I.bind_args(fn, args)
    k, n, w, buf, gen = [x for x in vals]
    k, n = [I._rd(x) if x.op == "ref" else x for x in (k, n)]
    j = fresh("j")
    set_range(j, n if not is_dd(n) else None)
    wv = I._rd(w) if w.op == "ref" else w
    before = dict(I.st)
    v, isref = I.apply(wv, [I.newroot("j", j)])
    v = I.rd(v) if isref else v
    for r, x in before.items():
        if I.st.get(r) is not x and not r.startswith("$o"):
            I.unk("the weight of a sample has side effects", e)
    gid, o = _next(I, gen)
    if gid is None:
        return None
    I.draws.append(("expj", I.fr.fn.q if I.fr.fn else "?"))
    t = TT.lift_any(lambda oo: app("expj", n, k, lam(j, v), gid, oo, *I.loopsyms, sort="[u"), o)
    I.wr(buf, as_seq(t))
    return lit(None)


def erfinv(I, fn, this, args, e):
    return fun1("erfinv", I.ev(args[0]))


def file_text(I, fn, this, args, e):
    """the contents of the named file"""
    p = I.ev(args[0])
    return as_seq(app("filetext", p if is_seq(p) else as_seq(p), sort="text"))


def comma_list(I, fn, this, args, e):
    """parse_comma_separated_list( text, callback ) on a text of known structure: one call per entry, in order"""
    import stdlib as L

    v = I._rd(I.lv(args[0])) if args[0].get("lv") else I.ev(args[0])
    if is_dd(v) or not is_seq(v):
        return None
    es = L.entries(v)
    if es is None:
        return None
    cb = I.lv(args[1]) if args[1].get("lv") else I.ev(args[1])
    cb = I._rd(cb) if cb.op == "ref" else cb
    r = I.newroot("entries", es)
    n = slen(es)
    k = cval(n)
    if k is not None:
        for i in range(int(k)):
            I.apply(cb, [const(i), I.newroot("entry", at(es, const(i)))])
    else:
        L.over(I, mk("iter", r, ZERO), n, lambda x, i: I.apply(cb, [i, I.newroot("entry", I.rd(x))]), e)
    return lit(None)


BASE = {
    "Seldon::parse_comma_separated_list": comma_list,
    "Seldon::Network::strongly_connected_components": scc,
    "Seldon::draw_unique_k_from_n": unique,
    "Seldon::reservoir_sampling_A_ExpJ": expj,
    "Seldon::Math::erfinv": erfinv,
    "Seldon::get_file_contents": file_text,
}
