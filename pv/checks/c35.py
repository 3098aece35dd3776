"""The wrappers of the optional solvers.  pyqpbo and opengm are not installed:
stand-ins with their call signatures take their place, which minimise by
enumeration the problem they are handed, and insist on the array types the
real libraries require."""
import contextlib
import sys
import types

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c06 import draw_pot, prob_of, valid
from .infer import judge

RULE = ("cases: potentials and edges or a model instance, solver and "
        "options; non-trivial: >= 1 edge with non-constant scores")
ASSUMPTIONS = [
    "pyqpbo and opengm are replaced by stand-ins that solve the problem they "
    "are handed exactly; the libraries themselves are not exercised",
    "QPBO works on fixed-point potentials: 1e-3 per node and edge",
    "potentials up to ~1e3"]

ALGS = dict(bp="BeliefPropagation", dd="DualDecompositionSubgradient",
            trws="TrwsExternal", trw="TreeReweightedBp", gibbs="Gibbs",
            lf="LazyFlipper", icm="Icm", dyn="DynamicProgramming",
            fm="AlphaExpansionFusion", gc="GraphCut", loc="Loc",
            mqpbo="Mqpbo", alphaexp="AlphaExpansion")


def minimise(costs, factors):
    """costs: one cost vector per node; factors: (nodes, table)."""
    L = ref.all_labelings([len(u) for u in costs])
    v = np.zeros(len(L))
    for i, u in enumerate(costs):
        v += u[L[:, i]]
    for (a, b), t in factors:
        v += t[L[:, a], L[:, b]]
    return L[np.argmin(v)]


class Calls(list):
    pass


def fake_qpbo(log):
    def alpha_expansion_general_graph(edges, data_cost, smoothness_cost,
                                      n_iter=5, verbose=False,
                                      random_seed=None):
        for name, a, d in (("edges", edges, 2), ("data_cost", data_cost, 2),
                           ("smoothness_cost", smoothness_cost, 3)):
            check(isinstance(a, np.ndarray) and a.dtype == np.int32 and
                  a.ndim == d and a.flags.c_contiguous, "pyqpbo needs "
                  "C-contiguous int32 arrays, %s is %r", name,
                  getattr(a, "dtype", type(a)))
        S = data_cost.shape[1]
        check(edges.shape[1] == 2 and smoothness_cost.shape ==
              (len(edges), S, S), "pyqpbo got edges %r and costs %r",
              edges.shape, smoothness_cost.shape)
        log.append("qpbo")
        return minimise(list(data_cost.astype(float)),
                        zip(edges, smoothness_cost.astype(float))
                        ).astype(np.int32)
    m = types.ModuleType("pyqpbo")
    m.alpha_expansion_general_graph = alpha_expansion_general_graph
    return m


class GM(object):
    def __init__(self, numberOfLabels, *a, **k):
        self.S = [int(s) for s in numberOfLabels]
        self.functions, self.factors = [], []

    def reserveFactors(self, n):
        pass

    def reserveFunctions(self, n, kind):
        pass

    def addFunction(self, f):
        self.functions.append(np.array(f, dtype=float))
        return len(self.functions) - 1

    def addFunctions(self, fs):
        return [self.addFunction(f) for f in fs]

    def addFactor(self, fid, variableIndices):
        v = [int(i) for i in np.atleast_1d(variableIndices)]
        f = self.functions[fid]
        check(all(0 <= i < len(self.S) for i in v) and
              f.shape == tuple(self.S[i] for i in v), "opengm: function of "
              "shape %r over variables %r", f.shape, v)
        self.factors.append((v, f))

    def addFactors(self, fids, variableIndices):
        check(len(fids) == len(variableIndices), "opengm: %d functions for "
              "%d factors", len(fids), len(variableIndices))
        for fid, v in zip(fids, variableIndices):
            self.addFactor(fid, v)

    def parts(self):
        U = [np.zeros(s) for s in self.S]
        F = []
        for v, f in self.factors:
            if len(v) == 1:
                U[v[0]] = U[v[0]] + f
            else:
                F.append((v, f))
        return U, F

    def evaluate(self, y):
        return float(sum(f[tuple(int(y[i]) for i in v)]
                         for v, f in self.factors))


def fake_opengm(log):
    m = types.ModuleType("opengm")
    m.label_type, m.value_type = np.uint64, np.float64
    m.index_type = np.uint64
    m.gm = m.graphicalModel = GM
    m.inference = types.ModuleType("opengm.inference")

    def algorithm(name):
        class Algorithm(object):
            def __init__(self, gm, *a, **k):
                self.gm, self.start = gm, None

            def setStartingPoint(self, y):
                self.start = np.array(y)

            def infer(self, *a, **k):
                self.y = minimise(*self.gm.parts())
                log.append((name, None if self.start is None
                            else self.start.tolist()))

            def arg(self):
                return self.y.astype(np.uint64)
        return Algorithm
    for name in ALGS.values():
        setattr(m.inference, name, algorithm(name))
    return m


@contextlib.contextmanager
def modules(**mods):
    """Let `mods` (None: not installed) stand for the modules of that name."""
    old = {k: sys.modules.get(k) for k in mods}
    had = {k: k in sys.modules for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k in mods:
            if had[k]:
                sys.modules[k] = old[k]
            else:
                del sys.modules[k]


def stand_ins(log):
    return modules(pyqpbo=fake_qpbo(log), opengm=fake_opengm(log))


# ------------------------------------------------------------- functions --
@st.composite
def problem(draw):
    S = draw(st.integers(1, 4))
    n = draw(st.integers(1, 5))
    E = gen.graph(draw, n, draw(st.sampled_from(gen.GRAPH_KINDS)))
    p = draw(gen.profiles(["tie", "int", "quarter", "float", "sparse", "neg",
                           "pos"]))
    U, P = draw_pot(draw, n, len(E), S, draw(st.booleans()), p)
    c = dict(E=E, U=U, P=P, alg=draw(st.sampled_from(sorted(ALGS))),
             order=draw(st.sampled_from("CF")),
             init=draw(st.booleans()))
    c["y0"] = gen.ints(draw, n, S)
    return c


def functions(c):
    from pystruct.inference import (inference_dispatch, inference_ogm,
                                    inference_qpbo)
    U, P, E = (np.array(c[k], order=c["order"]) for k in ("U", "P", "E"))
    U0, P0, E0 = U.copy(), P.copy(), E.copy()
    prob = prob_of(c)
    sc, best = ref.magnitude(prob), ref.brute_max(prob)
    grain = 2e-3 * (len(U) + len(E))
    log = Calls()
    with stand_ins(log):
        for en in (False, True):
            y = inference_dispatch(U, P, E, "qpbo", return_energy=en)
            if en:
                y, e = y
            y = valid(y, c, "qpbo")
            s = ref.score(prob, y)
            check(s >= best - grain - 1e-9 * sc, "qpbo returned score %r, "
                  "the optimum is %r", s, best)
            if en:
                check(close(-e, s, sc), "qpbo: energy %r, score %r", e, s)
        y = valid(inference_qpbo(U, P, E), c, "inference_qpbo")
        check(ref.score(prob, y) >= best - grain - 1e-9 * sc,
              "inference_qpbo")
        check(log == ["qpbo"] * len(log) and len(log) == 3, "solvers "
              "called for qpbo: %r", log)
        del log[:]
        init = np.array(c["y0"]) if c["init"] else None
        start = c["y0"].tolist() if c["init"] else None
        calls = [
            lambda **k: inference_ogm(U, P, E, alg=c["alg"], init=init, **k),
            lambda **k: inference_dispatch(U, P, E, "ogm", alg=c["alg"],
                                           init=init, **k),
            lambda **k: inference_dispatch(
                U, P, E, ("ogm", dict(alg=c["alg"], init=init)), **k)]
        for f in calls:
            for en in (False, True):
                y = f(return_energy=en) if en else f()
                if en:
                    y, e = y
                check(np.asarray(y).dtype.kind == "i", "labels of type %r",
                      np.asarray(y).dtype)
                y = valid(y, c, "ogm")
                s = ref.score(prob, y)
                check(close(s, best, sc), "ogm returned score %r, the "
                      "optimum is %r", s, best)
                if en:
                    check(close(-e, s, sc), "ogm: energy %r, score %r", e, s)
        check(log == [(ALGS[c["alg"]], start)] * 6, "alg=%r, init=%r ran %r",
              c["alg"], start, log)
    check(np.array_equal(U, U0) and np.array_equal(P, P0) and
          np.array_equal(E, E0), "the problem was modified")
    note(len(E) > 0 and bool(np.ptp(c["P"]) > 0), alg=c["alg"],
         order=c["order"])


# ---------------------------------------------------------------- models --
@st.composite
def case(draw):
    kind = draw(st.sampled_from([k for k in zoo.CRF_KINDS if k != "typed"]))
    c = zoo.draw_case(draw, kind, cap=300, max_nodes=6, project=True,
                      profs=gen.PLAIN, wprofs=gen.PLAIN)
    c["method"] = draw(st.sampled_from(["qpbo", "ogm"] + sorted(ALGS)[:4]))
    return c


def models(c):
    m = c["method"]
    if m in ALGS:
        m = ("ogm", {"alg": m})
    model = zoo.make_model(c, m)
    prob = zoo.problem(c)
    aug = zoo.augmented(c, prob, c["y"])
    x, w, h = zoo.get_x(c), np.array(c["w"]), zoo.to_model(c, c["y"])
    log = Calls()
    forb = 1.0 if c["kind"] not in ("latnode", "eflatnode") else 200.0
    grain = 2e-3 * (len(prob[0]) + len(prob[1]))

    def tol(q):
        sc = ref.magnitude(q)
        return 1e-9 * forb + (grain / sc if m == "qpbo" and sc else 0)
    with stand_ins(log):
        for k in range(2):
            for relaxed in (False, True):
                res = model.inference(x, w, relaxed=relaxed)
                judge(c, prob, res, "inference(%s)" % (m,), tol(prob))
                res = model.loss_augmented_inference(x, h, w,
                                                     relaxed=relaxed)
                judge(c, aug, res, "loss_augmented_inference(%s)" % (m,),
                      tol(aug))
        res, en = model.inference(x, w, return_energy=True)
        y, s, _ = judge(c, prob, res, "inference(%s)" % (m,), tol(prob))
        sc = ref.magnitude(prob)
        check(close(-en, s, sc, 1e-9 * forb), "energy %r for score %r", en,
              s)
        res, en = model.loss_augmented_inference(x, h, w, return_energy=True)
        y, s, _ = judge(c, aug, res, "loss_augmented_inference", tol(aug))
        check(close(-en, s, ref.magnitude(aug), 1e-9 * forb), "energy %r "
              "for score plus loss %r", en, s)
    want = "qpbo" if m == "qpbo" else (ALGS["dd"] if m == "ogm" else
                                       ALGS[m[1]["alg"]])
    check(len(log) >= 10 and all((l if m == "qpbo" else l[0]) == want
                                 for l in log), "inference_method=%r called "
          "%r", m, log[:3])
    note(any(np.ptp(p) > 0 for p in prob[2]), kind=c["kind"],
         method=c["method"])


# ------------------------------------------------------------- installed --
@st.composite
def setups(draw):
    return dict(q=draw(st.booleans()), o=draw(st.booleans()),
                a=draw(st.booleans()),
                ask=draw(st.permutations(["max-product", "ad3", "ad3+",
                                          "qpbo", "ogm", "lp"])),
                n=draw(st.integers(1, 6)), seed=draw(st.integers(0, 999)))


def installed(c):
    from pystruct.inference import get_installed
    from pystruct.models import (ChainCRF, EdgeFeatureGraphCRF, GraphCRF,
                                 GridCRF, LatentGraphCRF, LatentNodeCRF,
                                 MultiLabelClf)
    log = Calls()
    mods = dict(pyqpbo=fake_qpbo(log) if c["q"] else None,
                opengm=fake_opengm(log) if c["o"] else None)
    if not c["a"]:
        mods["ad3"] = None
    there = {"max-product", "lp"} | ({"ad3", "ad3+"} if c["a"] else set()) \
        | ({"qpbo"} if c["q"] else set()) | ({"ogm"} if c["o"] else set())
    rng = np.random.RandomState(c["seed"])
    with modules(**mods):
        check(set(get_installed()) == there, "get_installed() is %r with %r",
              get_installed(), sorted(there))
        ask = list(c["ask"])[:c["n"]]
        got = get_installed(list(ask))
        check(list(got) == [m for m in ask if m in there],
              "get_installed(%r) is %r with %r", ask, got, sorted(there))
        # models choose a method that is there
        E = np.array([[0, 1], [1, 2]])
        f = rng.normal(size=(3, 2))
        for M, args, x in (
                (ChainCRF, (2, 2), f), (GraphCRF, (2, 2), (f, E)),
                (EdgeFeatureGraphCRF, (2, 2, 1), (f, E, np.ones((2, 1)))),
                (GridCRF, (2, 2), f[None]),
                (LatentGraphCRF, (2, 2, 2), (f, E)),
                (LatentNodeCRF, (2, 2), (f[:2], E, 1)),
                (MultiLabelClf, (3, 2, E), f[0])):
            model = M(*args)
            check(model.inference_method in there, "%s uses %r by default, "
                  "installed: %r", M.__name__, model.inference_method,
                  sorted(there))
            w = rng.normal(size=model.size_joint_feature)
            y = model.inference(x, w)
            check(np.size(y) == 3, "%s: %r", M.__name__, y)
    note(not c["a"] or c["q"] or c["o"], ad3=str(c["a"]))


LEGS = [
    Leg("functions", problem(), functions, quick=600, shards=2,
        rule="an edge with non-constant scores"),
    Leg("models", case(), models, quick=800, shards=2,
        rule="an edge with non-constant scores"),
    Leg("installed", setups(), installed, quick=60,
        rule="other solvers than in this sandbox"),
]
