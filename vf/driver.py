"""Runs one property's obligations and analyses, decides them, writes the evidence and the verdict."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import numeval
import prog
from prog import AnalysisError
from terms import *
import terms as TT
import interp


class Item:
    """one obligation: status discharged | agree | undecided | violated | known"""

    def __init__(s, label, loc, status, rule, detail=None, key=None):
        s.label, s.loc, s.status, s.rule, s.detail, s.key = label, loc, status, rule, detail or {}, key or label

    def js(s):
        d = {"obligation": s.label, "at": s.loc, "status": s.status, "rule": s.rule}
        if s.detail:
            d["detail"] = s.detail
        return d


RULE_NF = "normal forms of the two values are the same term"
RULE_RI = "normal forms differ; separated by random interpretation"


class Run:
    def __init__(s, pid, tier, seed, spec):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.t0 = time.time()
        s.P = prog.extract(spec)
        s.items = []
        s.functions = {}
        s.notes = []
        s.loops = 0
        s.sites = 0
        s.limit = 780 if tier == "thorough" else 420

    def left(s):
        return s.limit - (time.time() - s.t0)

    # ---- value-flow harnesses
    def harness(s, name, summarise=None, texts=None, fixed=None, trials=None, maxtime=None, sep=True, traps=(), uncalled=False):
        fns = s.P.find("spec::" + name)
        if not fns and s.P.broken:
            s.items.append(Item(name, "spec", "undecided", "the harness does not fit the code's interface any more"))
            return None
        if not fns:
            raise AnalysisError(f"harness spec::{name} not found")
        if fns[0].tu in s.P.broken:
            # parts of the harness did not parse: nothing it finds counts as a violation
            s.items.append(Item(name, "spec", "undecided", "parts of the harness do not fit the code's interface any more"))
            sep = False
        budget = min(s.left(), maxtime or 300)
        I = interp.Interp(s.P, summarise or {}, deadline=time.time() + max(budget, 5))
        I.trapkinds = set(traps)
        try:
            I.call(fns[0], None, [], None)
        except (interp.Undecided, TooBig, RecursionError, MemoryError) as x:
            s.items.append(Item(name, "spec", "undecided", "analysis gave up: " + type(x).__name__ + " " + str(x)))
            s.note_interp(I, name)
            return I
        except AnalysisError:
            raise
        except Exception as x:
            tb = traceback.format_exc().strip().splitlines()
            s.items.append(Item(name, "spec", "undecided", "analysis gave up: " + type(x).__name__ + ": " + str(x), {"trace": tb[-6:]}))
            s.note_interp(I, name)
            return I
        s.note_interp(I, name)
        # a harness replaces functions to isolate what it looks at: one that is gone (or not called any more, unless
        # that is what the harness is about) leaves the question open
        missing = {n for n, f in I.replacers if f not in I.replacers_used}
        if uncalled:
            known = {I.stripq(q) for q in s.P.byq}
            missing = {m for m in missing if I.stripq(m) not in known}
        if missing:
            s.items.append(Item(name, "spec", "undecided", "a function this harness abstracts from is not called any more"))
            return I
        exits = [(c, v) for c, st, k, v in getattr(I, "top_exits", []) if k == "throw"]
        th = FALSE
        for c, v in exits:
            th = or_(th, c)
        obls = list(I.obls)
        obls.append((name + ": no exception escapes", th, FALSE, TRUE, TRUE, "spec::" + name))
        bad = {}
        for l, c in I.trapped:
            bad[l] = or_(bad.get(l, FALSE), c)
        for kind, at in sorted(I.trapsites):
            obls.append((f"{kind}: never", bad.get(f"{kind}: {at}", FALSE), FALSE, TRUE, TRUE, at))
        lemmas = {}
        for label, a, b, path, ctx, loc in obls:
            if label.startswith("lemma:"):
                it = s.decide(label[6:], a, b, ctx, loc, proof_only=True)
                lemmas.setdefault(label[6:], []).append(it.status == "discharged")
        for label, a, b, path, ctx, loc in obls:
            if label.startswith("lemma:"):
                continue
            exact = label.startswith("exactly:")
            label = label[8:] if exact else label
            if label in lemmas and all(lemmas[label]):
                s.items.append(Item(label, loc, "discharged", f"follows from {len(lemmas[label])} lemmas, whose values have the same normal form"))
            else:
                s.items.append(s.decide(label, a, b, ctx, loc, texts, fixed, trials, sep, exact=exact))
        return I

    def fork(s, jobs):
        """jobs: callables on this run; each in a process of its own (no shared term table, so the outcome of one does not depend on the others)"""
        import pickle

        width = max(1, int(os.environ.get("VF_JOBS", "6")))
        todo, live, done = list(enumerate(jobs)), {}, {}
        sys.stdout.flush()
        while todo or live:
            while todo and len(live) < width:
                i, job = todo.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    code = 0
                    try:
                        s.items, s.functions, s.notes, s.loops = [], {}, [], 0
                        try:
                            job(s)
                            out = (s.items, s.functions, s.notes, s.loops)
                        except AnalysisError as x:
                            out = str(x)
                        for it in out[0] if isinstance(out, tuple) else ():
                            it.detail = {k: str(v) for k, v in it.detail.items()}
                        with os.fdopen(wr, "wb") as fh:
                            pickle.dump(out, fh)
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    os._exit(code)
                os.close(wr)
                live[rd] = (i, pid)
            import select

            ready, _, _ = select.select(list(live), [], [])
            for rd in ready:
                i, pid = live.pop(rd)
                with os.fdopen(rd, "rb") as fh:
                    data = fh.read()
                os.waitpid(pid, 0)
                done[i] = pickle.loads(data) if data else None
        for i in range(len(jobs)):
            out = done[i]
            if out is None:
                s.items.append(Item(f"part {i + 1}", "spec", "undecided", "the analysis of this part ended early"))
            elif isinstance(out, str):
                raise AnalysisError(out)
            else:
                s.items += out[0]
                s.functions.update(out[1])
                s.notes += out[2]
                s.loops += out[3]

    def note_interp(s, I, name):
        for m, fn in I.visited.items():
            if (fn.d.get("file") or "").startswith(prog.REPO):
                s.functions[fn.q] = s.P.loc(fn)
        s.loops += len(I.loops)
        for k, v in I.unknown.items():
            s.notes.append(f"{name}: not modelled: {k} at {v}")

    def decide(s, label, a, b, ctx, loc, texts=None, fixed=None, trials=None, sep=True, proof_only=False, exact=False):
        loc = loc.replace(VERIF + "/", "")
        if a is b:
            return Item(label, loc, "discharged", RULE_NF)
        try:
            ga, gb = _guarded(ctx, a), _guarded(ctx, b)
        except TooBig:
            return Item(label, loc, "undecided", "too large")
        if ga is gb:
            return Item(label, loc, "discharged", RULE_NF + " under the path condition")
        try:
            pa, pb = prune(ga), prune(gb)
            if pa is pb or prune(equals_for_equals(pa)) is prune(equals_for_equals(pb)):
                return Item(label, loc, "discharged", RULE_NF + " under the path condition")
            if is_dd(pa) and not is_seq(pa) and prune(TT.unpos(pa)) is prune(TT.unpos(pb)):
                return Item(label, loc, "discharged", RULE_NF + " under the path condition, by cases")
            if not is_seq(pa) and not is_seq(pb):
                both = TT.lift("pair", lambda p, q: mk("pair", p, q), pa, pb)
                for step in (lambda t: t, prune, equals_for_equals, prune, lambda t: prune(lift_any(TT.unpos_pair, t))):
                    both = step(both)
                    if all(x.op == "pair" and x.a[0] is x.a[1] for x in dd_leaves(both)):
                        return Item(label, loc, "discharged", RULE_NF + " under the path condition")
        except TooBig:
            pass
        try:
            if canon_folds(prune(ga)) is canon_folds(prune(gb)):
                return Item(label, loc, "discharged", RULE_NF + " up to the names of its recurrences")
        except TooBig:
            pass
        if proof_only:
            return Item(label, loc, "undecided", "normal forms differ")
        if ctx is FALSE:
            return Item(label, loc, "undecided", "the statement is unreachable")
        if any(isinstance(x, str) for t in (a, b, ctx) for x in t.fs):
            return Item(label, loc, "undecided", "a loop-carried value is left unresolved", {"left": show(a, 6)[:400]})
        if a.unk or b.unk or ctx.unk:
            return Item(label, loc, "undecided", "a construct outside the model reaches this value", {"left": show(a, 6)[:400]})
        n = trials or (2000 if s.tier == "thorough" else 240)
        dl = time.time() + max(2.0, min(s.left() - 5, 60 if s.tier == "thorough" else 25))
        kw = {}
        if texts:
            kw["texts"] = texts
        if fixed:
            kw["fixed"] = fixed
        st, w = numeval.separate(a, b, ctx, trials=n, deadline=dl, exact=exact, **kw)
        if st == "separated" and sep:
            w = dict(w)
            w["left_term"], w["right_term"] = show(a, 8)[:1500], show(b, 8)[:1500]
            return Item(label, loc, "violated", RULE_RI, w)
        if st == "agree":
            return Item(label, loc, "agree", "normal forms differ; no valuation separates them", w)
        return Item(label, loc, "undecided", "normal forms differ; valuations " + st, w)

    # ---- verdict
    def finish(s, level, explanation, extra=None, assumptions=None):
        known, fixed = load_known()
        kn = known.get(s.pid, {})
        viol, kf = [], []
        for it in s.items:
            if it.status == "violated":
                if it.key in kn:
                    it.status = "known"
                    kf.append(it)
                else:
                    viol.append(it)
        cnt = {}
        for it in s.items:
            cnt[it.status] = cnt.get(it.status, 0) + 1
        und = [it for it in s.items if it.status == "undecided"]
        cov = {
            "explanation": explanation,
            "obligations": len(s.items),
            "discharged": cnt.get("discharged", 0),
            "agree_without_proof": cnt.get("agree", 0),
            "undecided": len(und),
            "violated": len(viol),
            "known_findings": len(kf),
            "functions_analysed": len(s.functions),
            "functions": sorted(f"{q} ({l})" for q, l in s.functions.items())[:80],
            "loops_summarised": s.loops,
            "units": len(s.P.tus),
            "rules": sorted({it.rule for it in s.items}),
            "samples": [it.js() for it in s.items if it.status != "discharged"][:12] + [it.js() for it in s.items if it.status == "discharged"][:12],
            "checker_cmd": f"python3 check.py {s.pid} --tier {s.tier}",
            "trusted_base": [
                "clang 18 front end (types, overload and template resolution)",
                "sx/sx.cpp, vf/*.py (extractor, value-flow analysis, normal forms)",
                "transfer functions of the C++ library operations (vf/stdlib.py)",
            ],
        }
        if s.notes:
            cov["not_modelled"] = s.notes[:40]
        if extra:
            cov.update(extra)
        ev = {
            "property": s.pid,
            "tier": s.tier,
            "seed": s.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions or ["arithmetic on double is treated as real arithmetic; unsigned counters do not wrap except where C28 says so"],
            "wall_s": round(time.time() - s.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        print(f"{s.pid}: {len(s.items)} obligations, {cnt.get('discharged', 0)} discharged, {cnt.get('agree', 0)} agree, {len(und)} undecided, {len(viol)} violated; {len(s.functions)} functions analysed, {ev['wall_s']} s")
        for it in und:
            print(f"UNDECIDED property={s.pid} {it.label} ({it.loc}): {it.rule}")
        for it in {i.key: i for i in kf}.values():
            print(f"KNOWN-FINDING: property={s.pid} {kn[it.key]}")
        if viol:
            rp = os.path.join(VERIF, "build", "replay")
            os.makedirs(rp, exist_ok=True)
            for i, it in enumerate(viol[:20]):
                path = os.path.join(rp, f"{s.pid}-{i}.json")
                with open(path, "w") as fh:
                    json.dump({"property": s.pid, **it.js()}, fh, indent=1, default=str)
                print(f"  {it.label}: {it.loc}: {it.rule}")
                for k in ("left", "right", "inputs", "where", "why"):
                    if k in it.detail:
                        print(f"     {k}: {str(it.detail[k])[:400]}")
                print(f"VIOLATION property={s.pid} replay={path}")
            return 1
        return 0


def _guarded(c, t):
    if c is TRUE:
        return t
    return ite(c, t, lit("$outside")) if not is_seq(t) else sif(c, t)


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<key> | <what fails>
                head, _, what = l[6:].partition("|")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                known.setdefault(d["property"], {})[d["key"].replace("_", " ")] = what.strip()
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def main(checks):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    ck = checks[a.id]
    try:
        r = Run(a.id, tier, seed, ck.get("spec", []))
        ck["run"](r)
        rc = r.finish(ck.get("level", "proof"), ck["explanation"], ck.get("extra"), ck.get("assumptions"))
    except AnalysisError as x:
        print(f"ANALYSIS-BROKEN property={a.id}: {x}")
        sys.exit(3)
    sys.exit(rc)
