"""The properties' obligations and analyses."""
from fractions import Fraction

from terms import *
import terms as TT

CHECKS = {}


import accuracy
import effects
import counts
import odr
from interp import INDETERMINATE
import summaries

SUM = summaries.BASE

VALUE_FLOW = "abstract interpretation to value-flow summaries, obligations decided by global value numbering"
NOTE = (
    "Each obligation relates the value the code computes to a reference for all inputs, sizes and draws; it is discharged when both have the same "
    "normal form. Trusted: the clang front end, the extractor, the analysis' rewriting rules and its model of the C++ library. double is treated as "
    "exact real arithmetic. Obligations the analysis cannot decide are printed as UNDECIDED and raise no alarm."
)


def run_all(names, summ, kw):
    def run(r):
        r.fork([lambda r, n=n: r.harness(n, summ, **kw) for n in names])

    return run


def harnesses(*names, **kw):
    return run_all(names, SUM, kw)


def add_check(pid, spec, run, explanation, technique=VALUE_FLOW, level="proof", note=NOTE, **kw):
    CHECKS[pid] = dict(spec=spec, run=run, explanation=explanation, technique=technique, level=level, note=note, **kw)


add_check("C01", ["c01"], harnesses("c01"), "One and two DeGroot iterations on an arbitrary network with arbitrary opinions: every opinion is the weighted sum of its neighbours' previous opinions; the network stays.")
add_check("C02", ["c02"], harnesses("c02_degroot", "c02_deffuant", "c02_deffuant_vector", "c02_activity", "c02_inertial"), "finished(), n_iterations() and the counter of every model after none, one and two iterations and after re-initialisation, for an arbitrary limit and tolerance.")
add_check("C03", ["c03"], harnesses("c03"), "One and two interactions of an arbitrary pair: both opinions by the bounded-confidence rule, everyone else and the network stay.")
add_check("C04", ["c04"], harnesses("c04", "c04_dimensions"), "One interaction of an arbitrary pair with arbitrary opinion vectors: each component by the rule of the paper; different dimensions are rejected.")
add_check("C05", ["c05"], harnesses("c05", "c05_free_pair", "c05_lattice", "c05_network_pair", "c05_no_square"), "An iteration is exactly n interactions of freshly drawn pairs; how a pair is drawn with and without the lattice; the lattice the model sets up, and its rejection of numbers that are no square.")
add_check("C06", ["c06"], harnesses("c06"), "One iteration on arbitrary contacts equals the fourth-order Runge-Kutta step of the documented right-hand side, bots excepted; nothing else moves.")
add_check("C07", ["c07"], harnesses("c07"), "One iteration on arbitrary contacts equals the velocity Verlet step of the documented right-hand side; nothing else moves.")

add_check("C08", ["c08"], harnesses("c08_activity", "c08_inertial"), "One iteration on arbitrary contacts, with bots: a bot keeps the opinion it was configured with and everyone else moves as the model says.")
add_check("C09", ["c09"], harnesses("c09_activity", "c09_inertial", "c09_later"), "The contact network of one iteration, drawn with arbitrary activities, homophilies, bots and reciprocity: who contacts whom, in which order of draws, and with which weight.")



def without(name, *names, **kw):
    """the named summary left out: the function itself is analysed"""
    summ = {k: v for k, v in SUM.items() if not k.endswith("::" + name)}

    return run_all(names, summ, kw)


def twice(names, stated_label, known_label, key):
    """obligations stated twice: as the property has them, and with what the known finding describes in its place"""

    def one(r, n):
        r.harness(n, SUM)
        stated = [i for i in r.items if i.label.startswith(stated_label)]
        known = [i for i in r.items if i.label.startswith(known_label)]
        for a, b in zip(stated, known):
            r.items.remove(b)
            if a.status == "violated":
                if b.status in ("discharged", "agree"):
                    a.key = key
                elif b.status == "undecided":
                    a.status, a.rule = "undecided", "differs from the formula; not settled whether only as the known finding does"

    return lambda r: r.fork([lambda r, n=n: one(r, n) for n in names])


c10 = twice(("c10_activity", "c10_inertial", "c10_later"), "the weight by the contact probabilities", "(the same, but for the known finding)", "activity-capped-from-below")
c29 = twice(("c29_power_law", "c29_normal", "c29_bivariate", "c29_copula"), "power law: mean", "(but for the known finding)", "power-law-mean-without-upper-bound")

add_check("C10", ["c10"], c10, "The mean-field weights of every pair after one iteration and after a second one, for arbitrary opinions, activities, homophilies and bots; the network they are stored in; the agents the model starts from.")

add_check("C11", ["c11"], harnesses("c11_activity", "c11_inertial", "c11_degroot", "c11_deffuant", "c11_vector", "c11_bots"), "An arbitrary agent after constructing each model on arbitrary settings: its opinion, activity, reluctance, velocity, vector; settings with more bots than agents.")

add_check(
    "C12", ["c12"], harnesses("c12_construct", "c12_set_weights", "c12_set_both", "c12_set_constant", "c12_push", "c12_clear", "c12_rearranged"),
    "Every constructor and every mutating operation of Network, applied to an arbitrary network with arbitrary arguments: one weight per neighbour and one row per agent afterwards (so by induction after every sequence of operations), the addressed row as given, every other row and the agents as before, wrong lengths rejected and nothing changed.",
)
add_check("C13", ["c13"], harnesses("c13_toggle", "c13_transpose", "c13_switch"), "Toggling, transposing and switching an arbitrary network in either direction: every row, the flag and the agents.")
add_check(
    "C14", ["c14"], harnesses("c14"),
    "An arbitrary network after removing double counting: neighbours strictly increasing, the same ones as before, each with the sum of its weights. The grouping of a sorted list is outside the rewriting rules, so most obligations are only compared by random interpretation.",
    level="other",
)
add_check(
    "C15", ["c15"], without("strongly_connected_components", "c15_visit", "c15_all", "c15_network", "c15_single", "c15_warning"),
    "Tarjan's algorithm taken apart: the visit of an arbitrary vertex in an arbitrary state of the search, with the visits it makes itself replaced by their contract (recursion rule); the vertices the search starts from; what the network reports; and when the model warns.",
    technique=VALUE_FLOW + "; recursion rule with a contract for the recursive calls", level="other",
    note=NOTE + " That visits which keep this contract find exactly the components is Tarjan's theorem and is not shown again.",
)
add_check("C16", ["c16"], harnesses("c16_connections", "c16_fully"), "Every row of a network generated with arbitrary size, number of connections and self-interaction, by both generators: the neighbours, and each weight as its draw over the sum of the row's draws.")
add_check("C17", ["c17"], harnesses("c17_fully", "c17_lattice"), "Every row of both regular generators for arbitrary sizes and weights; an arbitrary agent of the lattice and its four periodic neighbours.")
add_check("C18", ["c18"], without("draw_unique_k_from_n", "c18_one", "c18_none"), "Drawing k from n with an arbitrary ignored index and without one, for arbitrary k and n and whatever the buffer held: as many as there can be, each below n, none ignored, no two equal. The iterator the sample runs over is summarised from its own operators.")
add_check("C19", ["c19"], without("reservoir_sampling_A_ExpJ", "c19", "c19_nothing", "c19_any_weights", traps=("empty container",)), "Weighted sampling with arbitrary k, n, positive weights and whatever the buffer held: its size, each item against the exponential-jumps algorithm on the same draws, the number of draws, and the empty cases.")
def listing(v, *args):
    """a text of letters, blanks and commas"""
    return "".join("ab,,,,,, ;:|.#\n\t"[v.h(("chr", i) + args) % 16] for i in range(v.h(("chars",) + args) % 8))


def number(v, real, *args):
    k = v.h(("number",) + args)
    if not real or k % 3 == 0:
        return ("-" if k % 5 == 0 else "") + str(k // 7 % 9)
    return ("%.3f", "%.1f", "%g", "%.2e")[k // 11 % 4] % ((k // 13 % 2001 - 1000) / 128)


def lines(row):
    """a file of rows, comments, empty lines and a last line with or without its end"""

    def f(v):
        out = ""
        n = (1, 2, 1, 2, 3, 2, 0, 3)[v.h("lines") % 8]
        for i in range(n):
            k = v.h(("line", i)) % 20
            if k == 0:
                out += ""
            elif k < 4:
                out += ("#", "# a, 1, 2", "#1, 0.5")[k - 1]
            else:
                out += row(v, i)
            if i + 1 < n or v.h("end") % 2:
                out += "\n"
        return out

    return f


def agent_row(columns, real=True):
    def f(v, i):
        sep = (", ", ",", ",   ", " ,")[v.h(("sep", i)) % 4]
        c = columns[v.h(("columns", i)) % len(columns)]
        return (" " * (v.h(("pad", i)) % 4)) + str(i) + "".join(sep + number(v, real, i, j) for j in range(c)) + ("", "", "", " ", " # x")[v.h(("trail", i)) % 5]

    return f


def network_row(v, i):
    """mostly a complete row of a small network"""
    h = lambda *a: v.h(("netrow", i) + a)
    d = (1, 2, 0, 2, 1, 3)[h("deg") % 6]
    cells = [str(i), str(d)]
    broken = h("broken") % 12
    m = d + (broken == 1) - (broken == 2 and d > 0)
    cells += [str(h("nb", j) % (2 if broken != 3 else 5)) for j in range(m)]
    cells += [number(v, True, i, j, "w") for j in range(d + (broken == 4) - (broken == 5 and d > 0))]
    if broken == 6:
        cells = cells[:2]
    sep = (",", ",", ", ", ",  ")[h("sep") % 4]
    return ("", "", " ", "  ")[h("pad") % 4] + sep.join(cells) + ("", "", "", "", " ", " # x")[h("trail") % 6]


TEXTS = {
    "toml:simulation.model": lambda v: ("DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant", "Inertial")[v.h("model") % 5],
    "file:network": lines(network_row),
    "list": listing,
    "file:simple": lines(agent_row((1, 1, 1, 2))),
    "file:activity": lines(agent_row((3, 3, 2))),
    "file:inertial": lines(agent_row((4, 4, 4, 2))),
    "file:vector": lines(agent_row((1, 2, 4), False)),
}

add_check("C24", ["c24"], without("parse_comma_separated_list", "c24", texts=TEXTS), "An arbitrary text: as many calls as entries, each with its number and exactly its characters.")

def wide(name):
    """numbers of every magnitude"""

    def f(v, *args):
        k = v.h(("wide", name) + args)
        x = v.real(("in", name) + args) * Fraction(10) ** (0, 0, -9, -30, 15, -300)[k % 6]
        v.inputs[name + ("" if not args else str(args))] = x
        return x

    return f


WIDE = {k: wide(k) for k in ("w", "opinion", "activity", "reluctance", "velocity")}


def c20(r):
    r.fork([lambda r, n=n: r.harness(n, SUM) for n in ("c20_seed", "c20_models")])
    effects.determinism(r)


add_check(
    "C20", ["c20"], c20,
    "The dependences of every function of the repository: entropy sources and what they can reach, engines and where they are constructed, copied or seeded, state that outlives a simulation, hash or address order, values read before they are written; and that network, model and simulation draw in turn from the one generator seeded with the configured seed.",
    technique="whole-program dependence (taint) and effect analysis over the resolved syntax trees, with value-flow obligations for the construction of a simulation",
    note="The dependence graph is flow-insensitive and merges the objects of a class, so what it calls independent is independent in every run. Trusted: the clang front end, the extractor, the list of entropy sources. Functions of uninstantiated templates are not seen; spec/inst.cpp instantiates the agent types.",
)
add_check("C21", ["c21"], harnesses("c21"), "The run loop with arbitrary intervals, start, numbering and number of iterations, on a model that changes the agents and weights at every iteration: the list of opinion files and the list of network files, each with its path and the state it shows.")
add_check(
    "C22", ["c22"],
    harnesses(
        "c22_simple", "c22_activity", "c22_inertial", "c22_vector", "c22_write_simple", "c22_write_activity", "c22_write_inertial", "c22_write_vector",
        "c22_read_simple", "c22_read_activity", "c22_read_inertial", "c22_read_vector", "c22_start_file", texts=TEXTS, fixed=WIDE,
    ),
    "Each agent type with arbitrary fields written as the columns of a row and read back; the whole text of an arbitrary network's agent file; the agents read from an arbitrary text.",
)
add_check(
    "C23", ["c23"], harnesses("c23_write", "c23_read", "c23_reject", texts=TEXTS, fixed=WIDE),
    "The whole text of an arbitrary network's file; the network read from an arbitrary text, and the texts that are rejected.",
)
add_check(
    "C25", ["c25"], harnesses("c25_common", "c25_degroot", "c25_deffuant", "c25_activity", "c25_inertial", texts=TEXTS),
    "An arbitrary configuration file (any subset of the keys, any values, any bot lists), for each model: every setting against its own key and its documented default.",
)


def mostly(name, inside, outside):
    """a setting within its range most of the time, often at its border"""

    def f(v, *args):
        k = v.h(("limit", name) + args)
        pool = outside if k % 16 == 0 else inside
        x = pool[k // 16 % len(pool)]
        v.inputs[name] = x
        return x

    return f


def limits(**ranges):
    return {k: mostly(k, a, b) for k, (a, b) in ranges.items()}


_e = Fraction(1, 1024)
POSITIVE, NON_NEGATIVE = ((1, _e, 5), (0, 0, -_e, -1)), ((0, 0, _e, 1), (-_e, -1))
LIMITS = limits(
    n_output_agents=((1, 2), (0,)), n_output_network=((1, 2), (0,)), start_output=((1, 2), (0,)),
    tol=NON_NEGATIVE, threshold=POSITIVE, mu=((0, 1, _e, 1 - _e), (-_e, 1 + _e, 2)), dim=((1, 1, 1, 2), (0,)),
    dt=POSITIVE, m=((0, 1), (-1,)), eps=POSITIVE, gamma=((2 + _e, 3), (2, 2, 2 - _e, 1, -3)), alpha=NON_NEGATIVE, reciprocity=NON_NEGATIVE,
    homophily=((0, 1, -1), (-2,)), K=((0, 1, -1), (-2,)),
    reluctance_mean=POSITIVE, reluctance_sigma=POSITIVE, reluctance_eps=POSITIVE, covariance_factor=((-1, 1, 0, 1 - _e), (1 + _e, -1 - _e, 2)),
    n_bots=((0, 1, 2), (3,)), n_bot_m=((2, 2, 2, 3), (1, 0)), n_bot_activity=((2, 2, 2, 3), (1, 0)), n_bot_opinion=((2, 2, 2, 3), (1, 0)), n_bot_homophily=((2, 2, 2, 3), (1, 0)),
    friction=NON_NEGATIVE, max=((0, 1, 7), (-1, -5)), bot_m=((0, 0, 1, 7), (-1,)),
)
add_check(
    "C26", ["c26"], harnesses("c26_degroot", "c26_deffuant", "c26_activity", "c26_inertial", fixed=LIMITS),
    "Validation of arbitrary settings of each model: it throws exactly when one of them is outside its range.",
)
add_check(
    "C27", ["c27"], harnesses("c27_simple", "c27_activity", "c27_inertial", "c27_vector", "c27_network", "c27_simulation", "c27_main", uncalled=True),
    "Selection of the model for every pair of agent type and model, of the network's source for any combination of files, and the program itself for any options and arguments: what is parsed, validated, built and run, with which files and in which order.",
)
ARITHMETIC = ("division by zero", "below zero")


LOOSE = dict(LIMITS, **limits(m=((0, 1, 2, -1), (-1,)), bot_m=((0, 1, 2, -1), (-1,)), activity=((0, 1, _e, 1), (-1,))))


def c28(r):
    one = lambda n, sums=SUM, kinds=ARITHMETIC: lambda r: r.harness(n, sums, texts=TEXTS, fixed=LOOSE, traps=kinds)
    raw = lambda n, f: one(n, {k: v for k, v in SUM.items() if k != f})
    counts_ = lambda n: one(n, SUM, ARITHMETIC + ("negative count",))
    r.fork(
        [counts_(n) for n in ("c28_activity_mean", "c28_activity", "c28_inertial")]
        + [one(n) for n in ("c28_network", "c28_read", "c28_lattice", "c28_read_agents", "c28_read_vectors")]
        + [counts_(n) for n in ("c28_run", "c28_create_network", "c28_generate", "c28_degroot", "c28_deffuant", "c28_deffuant_lattice", "c28_deffuant_vector", "c28_write", "c28_write_vector")]
        + [raw("c28_random", "Seldon::draw_unique_k_from_n"), raw("c28_reservoir", "Seldon::reservoir_sampling_A_ExpJ"), raw("c28_list", "Seldon::parse_comma_separated_list"), raw("c28_components", "Seldon::Network::strongly_connected_components")]
    )
    counts.edge_counts(r)
    counts.reached(r)


add_check(
    "C28", ["c28"], c28,
    "Every integer division, remainder and difference of sizes in the program, met with arbitrary operands from accepted settings, arbitrary networks (empty rows, no agents) and arbitrary files; and the types in which edges are counted.",
    technique=VALUE_FLOW + "; backward slice over types for counters",
    note=NOTE + " A difference whose minuend is std::string::npos is no size and is not judged; differences that are below zero only within a sum are not either.",
)
add_check("C29", ["c29"], c29, "Inverse cumulative distributions, densities, the mean and the sampling of each distribution for arbitrary parameters and arguments.")

add_check(
    "C30", [], odr.one_definition,
    "Every function and class of the repository in every translation unit: one definition, specialised in all or none, the same members; names that hide instead of overriding; and each model's final overrider of its step.",
    technique="cross-translation-unit comparison of resolved definitions (one-definition rule, explicit specialisations, overriders) and effect analysis",
    note="Trusted: the clang front end and the extractor. Translation units are those of the program and one that instantiates every template for every agent type; the tests' own are not among them.",
)



def c31(r):
    summ = {k: v for k, v in SUM.items() if not k.endswith("::erfinv")}
    accuracy.inverse(r, "c31_value", summ)
    r.harness("c31_ends", summ)


add_check(
    "C31", ["c31"], c31,
    "The value of the inverse error function for an arbitrary argument as a closed expression, enclosed over all of (-1,1): Taylor expansions with interval coefficients and remainders over cells of x (of -log(1-|x|) towards the ends), each cell shown to lie within a relative 2e-15 of the true inverse; the values at and beyond the ends.",
    technique="abstract interpretation: value-flow summary of the function, then interval Taylor expansions of that expression over the whole range of the argument",
    note="The bound is on the formula in exact real arithmetic, with the coefficients as they are stored; the rounding of the individual operations is not included. Trusted: the clang front end, the extractor, the value-flow analysis, the correctly rounded exp and ln of Python's decimal module.",
)


ACCESSES = ("outside of the container", "empty container", "no value")


def met(kinds):
    """every piece of the program under harnesses that meet it with arbitrary inputs"""
    one = lambda n, sums=SUM: lambda r: r.harness(n, sums, texts=TEXTS, fixed=LOOSE, traps=kinds)
    raw = lambda n, f: one(n, {k: v for k, v in SUM.items() if k != f})
    return (
        [one("c35_" + n) for n in ("activity", "contacts", "contacts_inertial", "mean", "mean_inertial", "inertial")]
        + [raw("c35_draw", "Seldon::draw_unique_k_from_n"), raw("c35_reservoir", "Seldon::reservoir_sampling_A_ExpJ")]
        + [raw("c35_" + n, "Seldon::Network::strongly_connected_components") for n in ("visit", "components")]
        + [one("c35_" + n) for n in ("rows", "toggle", "transpose", "double_counting", "generate", "lattice", "read", "write", "write_vector", "agents", "distance", "degroot", "deffuant", "deffuant_vector", "start", "alone", "pair", "neighbours", "vectors", "run", "parse", "create", "main")]
    )


def c35(r):
    r.fork(met(ACCESSES))
    counts.accessed(r)


def c38(r):
    r.fork(met((INDETERMINATE,)) + [lambda r: r.harness("c38_print", SUM, texts=TEXTS, fixed=LOOSE, traps=(INDETERMINATE,))])
    effects.definite(r)


add_check(
    "C35", ["c35"], c35,
    "Every element of a vector, span or queue and every optional value the program reads or writes, met with arbitrary accepted settings, arbitrary networks, files and draws.",
    note=NOTE + " Characters of strings are not among the elements.",
)

add_check(
    "C36", ["c36"], harnesses("c36_degroot", "c36_deffuant", "c36_activity", "c36_inertial", "c36_run", "c36_main"),
    "The text printed for arbitrary settings of each model, by the program for arbitrary arguments, and by a run of any length.",
)

add_check(
    "C37", ["c37"], harnesses("c37"),
    "The dot file of an arbitrary network, with and without neighbours and agents: its lines, and the agent and neighbours each of them names.",
)

add_check(
    "C38", ["c35", "c38"], c38,
    "Every read of a number, truth value or enumerator the program makes, met with arbitrary accepted settings, networks, files and draws; every local variable and every member under every constructor.",
    technique=VALUE_FLOW + "; definite initialisation of locals and members",
)

# properties no check claims, with the reason
NOT_APPLICABLE = {
    "C32": "the probabilities of a sampling scheme are an integral over draws; deciding them needs probabilistic reasoning or statistics, not a static rule",
    "C33": "convergence is a limit over unboundedly many iterations and depends on the eigenvalues of the network's matrix",
    "C34": "whether opinions stay finite depends on magnitudes of user parameters and floating-point range",
}
