import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c06 import draw_pot, prob_of

RULE = ("cases: potentials and edges; non-trivial: >= 1 edge with "
        "non-constant scores (and, for rounding, a fractional optimum)")
ASSUMPTIONS = ["interior-point accuracy: 1e-5 relative to the sum of "
               "magnitudes of the potentials for energies, 1e-5 for "
               "feasibility", "simple graphs, at most 8 nodes, 4 states"]
PROFS = ["tie", "int", "quarter", "float", "sparse", "neg", "pos"]


@st.composite
def problem(draw, kinds=None, max_n=7, profs=PROFS):
    S = draw(st.integers(1, 4))
    n = draw(st.integers(1, max_n))
    E = gen.graph(draw, n, draw(st.sampled_from(kinds or gen.GRAPH_KINDS)))
    p = draw(gen.profiles(profs))
    U, P = draw_pot(draw, n, len(E), S, draw(st.booleans()), p)
    if draw(st.booleans()):
        U = U * 0.125
    return dict(E=E, U=U, P=P, p=p)


def polytope(c, u, p, what):
    S = c["U"].shape[1]
    check(isinstance(u, np.ndarray) and u.shape == c["U"].shape,
          "%s: unary marginals of shape %r", what, np.shape(u))
    p = np.asarray(p)
    check(p.size == len(c["E"]) * S * S and len(p) == len(c["E"]),
          "%s: edge marginals of shape %r", what, p.shape)
    p = p.reshape(len(c["E"]), S, S)
    t = 1e-5
    check(u.min(initial=0) >= -t and p.min(initial=0) >= -t,
          "%s: negative marginals", what)
    check(np.abs(u.sum(axis=1) - 1).max() <= t, "%s: node marginals sum to "
          "%s", what, u.sum(axis=1).tolist())
    for (a, b), q in zip(c["E"], p):
        check(np.abs(q.sum(axis=1) - u[a]).max() <= t and
              np.abs(q.sum(axis=0) - u[b]).max() <= t,
              "%s: marginals of edge (%d, %d) inconsistent", what, a, b)
    return p


def value(c, u, p):
    prob = prob_of(c)
    return float((c["U"] * u).sum() + sum((P * q).sum()
                                          for P, q in zip(prob[2], p)))


def optimal(c):
    from pystruct.inference import inference_dispatch
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    res, en = inference_dispatch(c["U"], c["P"], c["E"], "lp", relaxed=True,
                                 return_energy=True)
    check(isinstance(res, tuple) and len(res) == 2, "relaxed lp returned %r",
          type(res))
    u, p = res
    p = polytope(c, u, p, "lp")
    v = value(c, u, p)
    check(close(-en, v, sc, 1e-5), "reported energy %r, energy of the "
          "marginals %r", en, -v)
    opt = ref.lp_optimum(prob)
    check(abs(v - opt) <= 1e-5 * sc, "value of the lp solution %r, optimum "
          "over the local polytope %r", v, opt)
    best = ref.brute_max(prob) if c["U"].shape[1] ** len(c["U"]) < 20000 \
        else ref.score(prob, np.argmax(c["U"], axis=1))
    check(v >= best - 1e-5 * sc, "lp value %r below the score %r of a "
          "labelling", v, best)
    hard, en2 = inference_dispatch(c["U"], c["P"], c["E"], "lp",
                                   return_energy=True)
    hard = np.asarray(hard)
    check(hard.shape == (len(c["U"]),), "rounded lp has shape %r",
          hard.shape)
    for i, k in enumerate(hard):
        check(0 <= k < u.shape[1] and u[i, k] >= u[i].max() - 1e-4,
              "node %d rounded to state %r, marginals %s", i, k,
              u[i].tolist())
    check(close(en2, en, sc, 1e-5), "energies %r and %r with and without "
          "relaxation", en, en2)
    note(len(prob[1]) > 0 and any(np.ptp(q) > 0 for q in prob[2]),
         "fractional" if np.any((u > .01) & (u < .99)) else "integral",
         forest=ref.is_forest(len(u), c["E"]))


@st.composite
def unique_forest(draw):
    c = draw(problem(kinds=gen.FOREST_KINDS, max_n=6,
                     profs=["int", "quarter", "float", "pos"]))
    c["lift"] = gen.ints(draw, len(c["U"]), c["U"].shape[1])
    return c


def tight(c):
    from pystruct.inference import inference_dispatch
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    labs = ref.all_labelings([c["U"].shape[1]] * len(c["U"]))
    s = ref.all_scores(prob, labs)
    best = s.max()
    if np.sum(s > best - 1e-2 * sc) > 1:
        # make it unique: reward one labelling
        U = np.array(c["U"])
        U[np.arange(len(U)), labs[int(np.argmax(s))]] += 0.3 * sc
        c["U"] = U
        prob = prob_of(c)
        s = ref.all_scores(prob, labs)
    want = labs[int(np.argmax(s))]
    y = np.asarray(inference_dispatch(c["U"], c["P"], c["E"], "lp"))
    check(np.array_equal(y, want), "unique best labelling of a forest is %s, "
          "lp gives %s", want.tolist(), y.tolist())
    u, p = inference_dispatch(c["U"], c["P"], c["E"], "lp", relaxed=True)
    check(np.allclose(u[np.arange(len(u)), want], 1, atol=2e-3),
          "lp is not tight on a forest: %s", u.tolist())
    note(len(c["E"]) > 0)


@st.composite
def shapes(draw):
    c = draw(problem(profs=["int"]))
    c["how"] = draw(st.sampled_from(["states", "edges", "rect", "rect1"]))
    c["fn"] = draw(st.sampled_from(["dispatch", "general", "solve"]))
    return c


def reject(c):
    from pystruct.inference import inference_dispatch
    from pystruct.inference.linear_programming import (lp_general_graph,
                                                       solve_lp)
    U, E = c["U"], c["E"]
    S, m = U.shape[1], len(E)
    P = np.zeros((m, S, S))
    how, fn = c["how"], c["fn"]
    if fn == "solve":
        lp = lambda: solve_lp(-U, E, np.zeros((S + 1, S + 1)))
        ok = lambda: solve_lp(-U, E, np.zeros((S, S)))
    else:
        if how == "states":
            P = np.zeros((m, S + 1, S + 1))
        elif how == "edges":
            P = np.zeros((m + 1, S, S))
        elif how == "rect":
            P = np.zeros((m, S, S + 1))
        else:
            P = np.zeros((m, S + 1, S))
        if fn == "general":
            lp = lambda: lp_general_graph(-U, E, -P)
            ok = lambda: lp_general_graph(-U, E, np.zeros((m, S, S)))
        else:
            lp = lambda: inference_dispatch(U, P, E, "lp")
            ok = lambda: inference_dispatch(U, np.zeros((m, S, S)), E, "lp")
    try:
        lp()
        raised = False
    except ValueError:
        raised = True
    check(raised, "mismatching shapes (%s) accepted by %s", how, fn)
    ok()
    note(True, how=how, fn=fn)


def low_level(c):
    """lp_general_graph / solve_lp minimise."""
    from pystruct.inference.linear_programming import (lp_general_graph,
                                                       solve_lp)
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    opt = ref.lp_optimum(prob)
    if c["P"].ndim == 2:
        u, p, en = solve_lp(-c["U"], c["E"], -c["P"])
    else:
        u, p, en = lp_general_graph(-c["U"], c["E"], -c["P"])
    p = polytope(c, u, p, "lp_general_graph")
    check(close(float(en), -opt, sc, 1e-5), "objective %r, optimum %r", en,
          -opt)
    check(close(value(c, u, p), opt, sc, 1e-5), "suboptimal marginals")
    note(len(c["E"]) > 0)


LEGS = [
    Leg("optimal", problem(), optimal, quick=1500, shards=4,
        rule="an edge with non-constant scores"),
    Leg("cyclic", problem(kinds=["cycle", "complete", "general"]), optimal,
        quick=900, shards=3, rule="an edge with non-constant scores"),
    Leg("tight_on_forests", unique_forest(), tight, quick=600, shards=2,
        rule="at least one edge"),
    Leg("low_level", problem(), low_level, quick=400,
        rule="at least one edge"),
    Leg("shapes_rejected", shapes(), reject, quick=200, rule="every case"),
]
