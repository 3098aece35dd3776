import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close

RULE = ("cases: potentials and edges; non-trivial: >= 1 edge and a "
        "non-constant pairwise matrix (forests, models), or a cycle (loopy)")
ASSUMPTIONS = ["float64, 1e-9 relative to the sum of magnitudes",
               "simple graphs"]


def draw_pot(draw, n, m, S, shared, prof=None):
    p = prof or draw(gen.profiles())
    U = gen.arr(draw, (n, S), p)
    P = gen.arr(draw, (S, S) if shared else (m, S, S),
                draw(st.sampled_from([p, "tie", "int"])))
    return U, P


@st.composite
def forest(draw, large=False):
    S = draw(st.integers(1, 4 if large else 5))
    n = draw(st.integers(8, 90) if large else st.integers(1, 9))
    kind = draw(st.sampled_from(gen.FOREST_KINDS))
    E = gen.graph(draw, n, kind)
    shared = draw(st.booleans()) or n * S * S > 1500
    U, P = draw_pot(draw, n, len(E), S, shared)
    return dict(kind=kind, E=E, U=U, P=P, shared=shared,
                int=draw(st.integers(0, 5)) == 0)


def prob_of(c):
    E = [(int(a), int(b)) for a, b in c["E"]]
    P = [c["P"]] * len(E) if c["P"].ndim == 2 else list(c["P"])
    return list(c["U"]), E, P


def valid(y, c, what):
    y = np.asarray(y)
    check(y.shape == (len(c["U"]),), "%s has shape %r for %d nodes", what,
          y.shape, len(c["U"]))
    check(np.all(y >= 0) and np.all(y < c["U"].shape[1]) and
          np.all(y == np.round(y)), "%s is %s with %d states", what,
          y.tolist(), c["U"].shape[1])
    return y.astype(int)


def f_forest(c):
    from pystruct.inference import inference_dispatch
    U, E, P = c["U"], c["E"], c["P"]
    if c["int"] and np.all(U == np.round(U)) and np.all(P == np.round(P)):
        U, P = U.astype(int), P.astype(int)
    prob = prob_of(c)
    best = ref.forest_max(prob)
    sc = ref.magnitude(prob)
    y = valid(inference_dispatch(U, P, E, "max-product"), c, "max-product")
    s = ref.score(prob, y)
    check(close(s, best, sc), "max-product returned a labelling of score %r, "
          "the optimum is %r (%s, n=%d)", s, best, c["kind"], len(U))
    y2, en = inference_dispatch(U, P, E, "max-product", return_energy=True)
    y2 = valid(y2, c, "max-product")
    check(close(-en, ref.score(prob, y2), sc), "energy %r of a labelling of "
          "score %r", en, ref.score(prob, y2))
    check(close(ref.score(prob, y2), best, sc), "suboptimal with "
          "return_energy")
    Pr = np.array(prob[2]) if len(E) else np.zeros((0, 1, 1))
    note(len(E) > 0 and bool(np.ptp(Pr) > 0), graph=c["kind"],
         shared=c["shared"], deg=int(len(U) > len(E) + 1))


@st.composite
def model_case(draw):
    kind = draw(st.sampled_from(["chain", "graph", "edge", "multilabel",
                                 "grid", "dgrid", "latgraph", "chain"]))
    c = zoo.draw_case(draw, kind, cap=10 ** 15, max_nodes=30,
                      graph_kinds=gen.FOREST_KINDS, project=True,
                      max_states=5)
    if kind in zoo.GRIDS:
        n = c["n"] = draw(st.integers(1, 12))
        c["shape"] = [n, 1] if draw(st.booleans()) else [1, n]
        c["x"] = gen.arr(draw, tuple(c["shape"]) + (c["F"],),
                         c["profiles"][0])
        c["y"] = gen.ints(draw, n, c["S"])
    return c


def f_model(c):
    model = zoo.make_model(c, "max-product")
    prob = zoo.problem(c)
    sc = ref.magnitude(prob)
    w = np.array(c["w"])
    x = zoo.get_x(c)
    best = ref.forest_max(prob)
    y = zoo.from_model(c, model.inference(x, w))
    check(close(ref.score(prob, y), best, sc), "%s.inference: score %r, "
          "optimum %r", c["kind"], ref.score(prob, y), best)
    aug = zoo.augmented(c, prob, c["y"])
    best = ref.forest_max(aug)
    y = zoo.from_model(c, model.loss_augmented_inference(
        x, zoo.to_model(c, c["y"]), w))
    check(close(ref.score(aug, y), best, ref.magnitude(aug)),
          "%s.loss_augmented_inference: score %r, optimum %r", c["kind"],
          ref.score(aug, y), best)
    note(len(prob[1]) > 0 and any(np.ptp(p) > 0 for p in prob[2]),
         kind=c["kind"])


@st.composite
def loopy(draw):
    S = draw(st.integers(1, 4))
    n = draw(st.integers(2, 9))
    E = gen.graph(draw, n, draw(st.sampled_from(["cycle", "complete",
                                                 "general"])))
    U, P = draw_pot(draw, n, len(E), S, draw(st.booleans()))
    opts = {}
    if draw(st.booleans()):
        opts["max_iter"] = draw(st.integers(1, 20))
    if draw(st.booleans()):
        opts["damping"] = draw(st.sampled_from([0., .25, .5, .9]))
    if draw(st.booleans()):
        opts["tol"] = draw(st.sampled_from([1e-8, 1e-2, 10.]))
    return dict(E=E, U=U, P=P, opts=opts)


def f_loopy(c):
    from pystruct.inference import inference_dispatch
    U, E, P = c["U"], c["E"], c["P"]
    prob = prob_of(c)
    m = ("max-product", dict(c["opts"])) if c["opts"] else "max-product"
    y = valid(inference_dispatch(U, P, E, m), c, "loopy max-product")
    y2, en = inference_dispatch(U, P, E, m, return_energy=True)
    y2 = valid(y2, c, "loopy max-product")
    sc = ref.magnitude(prob)
    check(np.array_equal(y, y2), "return_energy changes the labelling")
    check(close(-en, ref.score(prob, y2), sc), "energy %r of a labelling of "
          "score %r", en, ref.score(prob, y2))
    best = ref.brute_max(prob) if U.shape[1] ** len(U) <= 5000 else None
    exact = None
    if best is not None:
        check(ref.score(prob, y) <= best + 1e-9 * sc, "impossible score")
        exact = int(ref.score(prob, y) >= best - 1e-9 * sc)
    isf = ref.is_forest(len(U), E)
    if isf and best is not None:
        check(exact, "not exact on a forest: score %r, optimum %r",
              ref.score(prob, y), best)
    if not any(p.any() for p in prob[2]) and not c["opts"].get("max_iter"):
        # without interactions every node takes its best state
        check(ref.score(prob, y) >= sum(u.max() for u in U) - 1e-9 * sc,
              "not exact without interactions")
    note(not isf, exact=exact)


@st.composite
def agreement(draw):
    """Every edge rewards agreement (up to a relabelling of the states of each
    node) and all unary evidence supports one state: the optimum is evident
    and the messages have to carry it around the loops."""
    S = draw(st.integers(2, 4))
    n = draw(st.integers(3, 9))
    E = gen.graph(draw, n, draw(st.sampled_from(["cycle", "complete"])))
    return dict(n=n, S=S, E=E, k=draw(st.integers(0, S - 1)),
                ev=gen.ints(draw, n, 3), at=draw(st.integers(0, n - 1)),
                perms=[gen.perm(draw, S) for _ in range(n)],
                strength=draw(st.sampled_from([1., 2.5, 10.])))


def f_agree(c):
    from pystruct.inference import inference_dispatch
    n, S = c["n"], c["S"]
    ev = np.array(c["ev"], dtype=float)
    ev[c["at"]] = max(ev[c["at"]], 1)
    U = np.zeros((n, S))
    for i in range(n):
        U[i, c["perms"][i][c["k"]]] = ev[i]
    P = np.zeros((len(c["E"]), S, S))
    for e, (a, b) in enumerate(c["E"]):
        P[e, c["perms"][a], c["perms"][b]] = c["strength"]
    y = np.asarray(inference_dispatch(U, P, c["E"], "max-product"))
    want = np.array([c["perms"][i][c["k"]] for i in range(n)])
    check(np.array_equal(y, want), "all edges favour agreement, the evidence "
          "one state: expected %s, got %s", want.tolist(), y.tolist())
    note(True)


@st.composite
def silent(draw):
    """A graph with cycles on which only the edges of a spanning forest have
    potentials that vary."""
    S = draw(st.integers(2, 4))
    n = draw(st.integers(3, 8))
    E = gen.graph(draw, n, draw(st.sampled_from(["cycle", "complete",
                                                 "general"])))
    p = draw(st.sampled_from(["int", "quarter", "float", "sparse"]))
    return dict(E=E, U=gen.arr(draw, (n, S), p),
                P=gen.arr(draw, (len(E), S, S), p),
                damping=draw(st.sampled_from([0., .25, .5])))


def f_silent(c):
    from pystruct.inference import inference_dispatch
    U, E = c["U"], c["E"]
    P = np.array(c["P"], dtype=float)
    comp = list(range(len(U)))
    closed = 0
    for e, (a, b) in enumerate(E):
        if comp[a] == comp[b]:
            P[e] = P[e].flat[0]
            closed += 1
        else:
            comp = [comp[a] if k == comp[b] else k for k in comp]
    keep = [e for e in range(len(E)) if np.ptp(P[e]) > 0]
    prob = (list(U), [tuple(E[e]) for e in keep], [P[e] for e in keep])
    best, sc = ref.forest_max(prob), ref.magnitude(prob)
    want = []
    for i in range(len(U)):
        vals = []
        for s in range(U.shape[1]):
            V = [np.array(u, dtype=float) for u in U]
            V[i] = np.where(np.arange(U.shape[1]) == s, V[i], -10 * sc - 10)
            vals.append(ref.forest_max((V,) + prob[1:]))
        o = np.sort(vals)
        if o[-1] - o[-2] <= 1e-6 * (1 + sc):
            note(False)
            return          # several optimal labellings, or nearly
        want.append(int(np.argmax(vals)))
    y = inference_dispatch(U, P, E, ("max-product", {
        "max_iter": 300, "damping": c["damping"], "tol": 1e-9}))
    check(np.array_equal(np.asarray(y), want), "the varying potentials form a "
          "forest: the only optimum is %s (score %r), got %s", want, best,
          np.asarray(y).tolist())
    note(closed > 0 and len(keep) > 0)


@st.composite
def longchain(draw):
    n = draw(st.integers(100, 400))
    S = draw(st.integers(2, 3))
    p = draw(st.sampled_from(["tie", "float", "neg", "big"]))
    return dict(kind="orderedchain", E=gen.graph(draw, n, "orderedchain"),
                U=gen.arr(draw, (n, S), p), P=gen.arr(draw, (S, S), p),
                shared=True, int=False)


LEGS = [
    Leg("forest_small", forest(), f_forest, quick=5000, shards=3,
        rule="an edge and non-constant pairwise scores"),
    Leg("forest_large", forest(large=True), f_forest, quick=900, shards=2,
        rule="an edge and non-constant pairwise scores"),
    Leg("long_chain", longchain(), f_forest, quick=60,
        rule="an edge and non-constant pairwise scores"),
    Leg("models", model_case(), f_model, quick=1500, shards=2,
        rule="an edge and non-constant pairwise scores"),
    Leg("loopy", loopy(), f_loopy, quick=900, shards=2,
        rule="the graph has a cycle"),
    Leg("loopy_agreement", agreement(), f_agree, quick=400, shards=2,
        rule="every case"),
    Leg("silent_edges", silent(), f_silent, quick=500, shards=2,
        rule="a cycle is closed by constant potentials, others vary"),
]
