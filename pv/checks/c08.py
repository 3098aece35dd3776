import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c06 import draw_pot, prob_of, valid
from .infer import SOFT, judge_energy, solver_fails

RULE = ("cases: potentials, edges, method and options; non-trivial: >= 1 "
        "edge with non-constant scores")
ASSUMPTIONS = ["AD3 accuracy: 1e-6 (branch and bound, integral solutions) "
               "and 1e-3 (relaxed) relative to the sum of magnitudes; "
               "potentials up to ~1e3", "opengm and pyqpbo are not installed, "
               "their wrappers are not exercised"]


@st.composite
def problem(draw, kinds=None, max_n=5, profs=SOFT, shared=None, frust=False):
    S = draw(st.integers(2, 3) if frust else st.integers(1, 4))
    n = draw(st.integers(3 if frust else 1, max_n if S < 4 else 5))
    E = gen.graph(draw, n, draw(st.sampled_from(kinds or gen.GRAPH_KINDS)))
    p = draw(gen.profiles(profs))
    sh = draw(st.booleans()) if shared is None else shared
    U, P = draw_pot(draw, n, len(E), S, sh, p)
    if frust or draw(st.booleans()):
        U = U * 0.125
    if frust:
        # repulsive edges: odd cycles are frustrated
        P = P * 0.25 - np.eye(S) * draw(st.sampled_from([1., 2., 5.]))
    return dict(E=E, U=U, P=P, p=p)


def nontrivial(c):
    return len(c["E"]) > 0 and bool(np.ptp(c["P"]) > 0)


def per_edge(c):
    P = c["P"]
    return np.repeat(P[None], len(c["E"]), axis=0) if P.ndim == 2 else P


def bnb(c):
    from pystruct.inference import inference_dispatch, compute_energy
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    best = ref.brute_max(prob)
    for m, P in (("ad3", c["P"]), ("ad3+", per_edge(c))):
        opts = {"branch_and_bound": True}
        y, en = inference_dispatch(c["U"], P, c["E"], (m, opts),
                                   return_energy=True)
        check(opts == {"branch_and_bound": True}, "options changed to %r",
              opts)
        y = valid(y, c, m)
        s = ref.score(prob, y)
        if not close(s, best, sc, 1e-6) and solver_fails(prob, m == "ad3+"):
            note(False, m + " gave up")
            continue
        check(close(s, best, sc, 1e-6), "%s with branch and bound returned "
              "score %r, the optimum is %r", m, s, best)
        judge_energy(prob, en, s, m, 1e-6, m)
        check(close(float(compute_energy(c["U"], P, c["E"], y)), s, sc),
              "compute_energy is %r, score %r",
              float(compute_energy(c["U"], P, c["E"], y)), s)
        y2 = inference_dispatch(c["U"], P, c["E"], m, branch_and_bound=True)
        check(close(ref.score(prob, valid(y2, c, m)), best, sc, 1e-6),
              "%s(branch_and_bound=True) is not exact", m)
    frac = False
    if len(c["E"]):
        frac = isinstance(inference_dispatch(c["U"], c["P"], c["E"], "ad3",
                                             relaxed=True), tuple)
    note(nontrivial(c), "fractional relaxation" if frac else "tight")


def plain(c):
    from pystruct.inference import inference_dispatch
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    best = ref.brute_max(prob)
    S, m_ = c["U"].shape[1], len(c["E"])
    opt = None
    for m, P in (("ad3", c["P"]), ("ad3+", per_edge(c))):
        res, en = inference_dispatch(c["U"], P, c["E"], m, relaxed=True,
                                     return_energy=True)
        hard, en2 = inference_dispatch(c["U"], P, c["E"], m,
                                       return_energy=True)
        hard = valid(hard, c, m)
        check(close(en, en2, sc, 1e-9), "%s: energies %r and %r with and "
              "without relaxed", m, en, en2)
        if isinstance(res, tuple):
            u, p = res
            check(u.shape == c["U"].shape, "%s: unary marginals %r", m,
                  u.shape)
            check(p.shape == (m_, S * S), "%s: edge marginals %r", m,
                  p.shape)
            v = float((c["U"] * u).sum() + (per_edge(c).reshape(m_, S * S)
                                            * p).sum())
            check(close(-en, v, sc, 1e-7), "%s: energy %r, value of the "
                  "marginals %r", m, en, v)
            check(u.min() >= -1e-6 and abs(u.sum(axis=1) - 1).max() < .05,
                  "%s: node marginals %s", m, u.tolist())
            check(v >= best - 1e-3 * sc, "%s: relaxed value %r below the "
                  "best labelling %r", m, v, best)
            if opt is None:
                opt = ref.lp_optimum(prob)
            check(v <= opt + 1e-3 * sc, "%s: relaxed value %r above the "
                  "optimum of the relaxation %r", m, v, opt)
            for i in range(len(u)):
                check(u[i, hard[i]] >= u[i].max() - 1e-9, "%s: node %d "
                      "rounded to %d, marginals %s", m, i, hard[i],
                      u[i].tolist())
        else:
            y = valid(res, c, m)
            s = ref.score(prob, y)
            check(close(s, best, sc, 1e-5), "%s reports an integral solution "
                  "of score %r, the optimum is %r", m, s, best)
            check(close(-en, s, sc, 1e-5), "%s: energy %r for score %r", m,
                  en, s)
            check(np.array_equal(y, hard), "%s: relaxed changes an integral "
                  "solution", m)
        note(nontrivial(c), "%s %s" % (m, "fractional" if isinstance(
            res, tuple) else "integral"))


@st.composite
def dispatch_case(draw):
    c = draw(problem(profs=["tie", "int", "float", "quarter"]))
    c["bad"] = draw(st.sampled_from(["", "ad4", "MAX-PRODUCT", "lpx", "maxprod",
                                     "viterbi", "unaries", "none"]))
    return c


def dispatch(c):
    from pystruct.inference import (inference_dispatch, compute_energy,
                                    get_installed)
    U, E, P = c["U"], c["E"], c["P"]
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    # unary
    y, en = inference_dispatch(U, P, E, "unary", return_energy=True)
    y = valid(y, c, "unary")
    check(all(U[i, y[i]] == U[i].max() for i in range(len(U))),
          "unary method: %s", y.tolist())
    check(close(-en, ref.score(prob, y), sc), "unary: energy %r, score %r",
          en, ref.score(prob, y))
    check(np.array_equal(y, inference_dispatch(U, P, E, "unary")),
          "unary: return_energy changes the result")
    # unknown methods
    for m in (c["bad"], (c["bad"], {})):
        try:
            inference_dispatch(U, P, E, m)
            raised = False
        except ValueError:
            raised = True
        check(raised, "unknown method %r accepted", m)
    # options in tuples
    opts = {"relaxed": True}
    r = inference_dispatch(U, P, E, ("lp", opts))
    check(isinstance(r, tuple), "('lp', {'relaxed': True}) not honoured")
    check(opts == {"relaxed": True}, "options dictionary changed: %r", opts)
    r2, en = inference_dispatch(U, P, E, ("lp", {}), return_energy=True)
    check(not isinstance(r2, tuple), "('lp', {}) returned marginals")
    a = inference_dispatch(U, P, E, "ad3", relaxed=True)
    b = inference_dispatch(U, P, E, ("ad3", {"relaxed": True}))
    check(type(a) == type(b) and (np.allclose(a[0], b[0])
                                  if isinstance(a, tuple)
                                  else np.array_equal(a, b)),
          "options in a tuple differ from keyword options")
    # every method reports -score of an integral solution
    for m in ("max-product", ("ad3", {"branch_and_bound": True})):
        y, en = inference_dispatch(U, P, E, m, return_energy=True)
        y = valid(y, c, str(m))
        judge_energy(prob, en, ref.score(prob, y), str(m), 1e-6,
                     "ad3" if m != "max-product" else None)
        check(close(float(compute_energy(U, P, E, y)), ref.score(prob, y),
                    sc), "compute_energy")
    if isinstance(r, tuple) and np.all((r[0] < 1e-6) | (r[0] > 1 - 1e-6)):
        check(close(-inference_dispatch(U, P, E, "lp", return_energy=True)[1],
                    ref.score(prob, r2), sc, 1e-5), "lp: energy of an "
              "integral solution")
    ms = ["max-product", "ad3", "ad3+", "lp"]
    got = get_installed(ms)
    check([m for m in ms if m in got] == list(got), "get_installed: %r", got)
    note(nontrivial(c))


@st.composite
def energy_case(draw):
    c = draw(problem(max_n=8, profs=gen.PROFILES))
    c["y"] = gen.ints(draw, len(c["U"]), c["U"].shape[1])
    c["bad"] = draw(st.booleans())
    return c


def energy(c):
    from pystruct.inference import compute_energy
    prob = prob_of(c)
    sc = ref.magnitude(prob)
    e = float(compute_energy(c["U"], c["P"], c["E"], np.array(c["y"])))
    check(close(e, ref.score(prob, c["y"]), sc), "compute_energy %r, score "
          "%r", e, ref.score(prob, c["y"]))
    e = float(compute_energy(c["U"], per_edge(c), c["E"], np.array(c["y"])))
    check(close(e, ref.score(prob, c["y"]), sc), "compute_energy with one "
          "matrix per edge %r, score %r", e, ref.score(prob, c["y"]))
    note(nontrivial(c) and len(set(map(int, c["y"]))) > 1)


LEGS = [
    Leg("branch_and_bound", problem(), bnb, quick=1500, shards=3,
        rule="an edge with non-constant scores"),
    Leg("frustrated", problem(kinds=["cycle", "complete"], frust=True,
                              profs=["tie", "int", "float", "quarter"]),
        bnb, quick=900, shards=3, rule="an edge with non-constant scores"),
    Leg("relaxed", problem(profs=gen.PLAIN + ["pos"]), plain, quick=1200,
        shards=2, rule="an edge with non-constant scores"),
    Leg("relaxed_frustrated", problem(kinds=["cycle", "complete"], frust=True,
                                      profs=["tie", "int", "float"]),
        plain, quick=900, shards=3, rule="an edge with non-constant scores"),
    Leg("dispatch", dispatch_case(), dispatch, quick=800, shards=2,
        rule="an edge with non-constant scores"),
    Leg("compute_energy", energy_case(), energy, quick=1500,
        rule="an edge with non-constant scores, two states used"),
]
