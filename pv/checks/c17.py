import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c16 import restricted
from .learn import (Program, TRAIN_KINDS, draw_train, fit, learners,
                    method_of)

RULE = ("cases: training set, model, C and one-slack options; non-trivial: "
        "the learned weights are not zero and several constraints were found")
ASSUMPTIONS = [
    "the reference optimum is bracketed by a primal value and a dual value "
    "of the program with all labellings enumerated",
    "cvxopt's QP solutions are exact to 1e-5 relative; runs in which it "
    "reports failure are excused",
    "the program's objective is 0.5|w|^2 + C * sum of slacks; convergence "
    "within C * n_samples * tol of its minimum"]
QP = 2e-5
MAX_ITER = 3000


@st.composite
def case(draw, kinds=TRAIN_KINDS, exact=False):
    c = draw_train(draw, kinds, exact)
    c["tol"] = draw(st.sampled_from([1e-3, 1e-4, 1e-2, 0.1]))
    if c["C"] >= 10:
        c["tol"] = max(c["tol"], 1e-3)
    c["window"] = draw(st.sampled_from([50, 0, 3, 1, 10]))
    c["check"] = draw(st.booleans())
    c["cache"] = draw(st.sampled_from([0, 0, 1, 2, 10]))
    c["cache_tol"] = draw(st.sampled_from(["auto", None, 0.01, 0.5, 0.0]))
    c["n_jobs"] = 2 if draw(st.integers(0, 5)) == 0 else 1
    return c


def options(c, **kw):
    kw.setdefault("max_iter", MAX_ITER)
    return dict(C=c["C"], tol=c["tol"], inactive_window=c["window"],
                check_constraints=c["check"], inference_cache=c["cache"],
                cache_tol=c["cache_tol"], n_jobs=c["n_jobs"], **kw)


def check_run(c, P, lr, what="fit", start=0, first_method_exact=True,
              max_iter=MAX_ITER):
    """start: entries of the curves that belong to earlier fits."""
    w = np.array(lr.w, dtype=float)
    d = P.Fs[0].shape[1]
    check(w.shape == (d,), "%s: w of shape %r", what, w.shape)
    up, lo = P.opt()
    r = P.risk(w)
    obj = [float(v) for v in lr.objective_curve_]
    pri = [float(v) for v in lr.primal_objective_curve_]
    cached = [bool(v) for v in lr.cached_constraint_]
    check(len(obj) == len(pri) == len(cached), "%s: curves of lengths %d, "
          "%d, %d", what, len(obj), len(pri), len(cached))
    slack = c["C"] * P.n * c["tol"] + 2e-4 * (1 + up) + 1e-5 * c["C"] * P.n
    bad = (r > up + slack and len(obj) - start < max_iter or abs(pri[-1] - r) > 1e-5 * (1 + r) or
           any(v < up - 2e-5 * (1 + up) for v, k in zip(pri, cached)
               if not k))
    if c["exact"] and bad and P.ad3_fails(w):
        note(False, "AD3 gave up")
        return False
    if len(obj) - start < max_iter:
        check(r <= up + slack, "%s ended at weights of risk %r, the optimum "
              "is %r, C * n * tol = %r", what, r, up,
              c["C"] * P.n * c["tol"])
    for v in obj:
        check(v <= up + QP * (1 + up) + P.grain(w), "%s reports a cutting-plane objective "
              "of %r above the optimum %r", what, v, up)
    if first_method_exact:
        for v, k in zip(pri, cached):
            if not k:
                check(v >= lo - 1e-5 * (1 + up) - P.grain(w), "%s reports a primal value "
                      "%r below the optimum %r", what, v, lo)
    check(close(pri[-1], r, r, 1e-5 if c["exact"] else 1e-8) or
          abs(pri[-1] - r) <= P.grain(w), "%s: final primal objective %r, the risk is %r", what, pri[-1], r)
    if c["cache"] == 0:
        check(not any(cached), "%s: constraints from a cache nobody asked "
              "for", what)
    if c["window"] == 0:
        for a, b in zip(obj[start:], obj[start + 1:]):
            check(b >= a - QP * (1 + abs(a)), "%s: the cutting-plane "
                  "objective drops from %r to %r without pruning", what, a, b)
    return True


def stats(lr):
    return dict(iters=min(200, len(lr.objective_curve_)) // 10 * 10,
                cached=any(lr.cached_constraint_))


def fn(c):
    P = Program(c)
    lr = learners()["oneslack"](P.model, **options(c))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    check_run(c, P, lr)
    note(len(lr.objective_curve_) > 3 and
         float(np.abs(lr.w).max(initial=0)) > 1e-6,
         "cached" if any(lr.cached_constraint_) else "fresh",
         kind=c["D"][0]["kind"], C=c["C"], tol=c["tol"], window=c["window"],
         **stats(lr))


# ------------------------------------------------------------------- pruning
@st.composite
def prune_case(draw):
    c = draw(case())
    if draw(st.booleans()):
        c["D"] = draw_train(draw, ["multiclass", "binary", "graph"], n_max=14,
                            n_min=6)["D"]
        c["exact"] = False
    c["window"] = draw(st.sampled_from([1, 1, 2, 3, 0]))
    c["iters"] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 13, 50, 200]))
    return c


def f_prune(c):
    model = zoo.make_model(c["D"][0], method_of(c))
    X, Y = zoo.get_XY(c["D"])
    lr = learners()["oneslack"](model, **options(c, max_iter=c["iters"]))
    if not fit(lr, X, Y, initialize=False):
        return
    w = np.array(lr.w, dtype=float)
    cons = lr.constraints_
    restricted([np.array([k[0] for k in cons], dtype=float)],
               [np.array([float(k[1]) for k in cons])], c["C"] * len(X), w,
               float(lr.objective_curve_[-1]), "fit", 1)
    note(len(cons) > 2 and np.abs(w).max(initial=0) > 1e-6,
         iters=c["iters"], window=c["window"])


# ---------------------------------------------------------------- warm starts
@st.composite
def warm_case(draw):
    c = draw(case())
    c["modes"] = [draw(st.sampled_from([True, "soft"]))
                  for _ in range(draw(st.integers(1, 3)))]
    c["stop"] = draw(st.sampled_from([1, 2, 5, MAX_ITER]))
    return c


def f_warm(c):
    """The first fit stops early or not; warm starts end at the optimum of
    the same program."""
    P = Program(c)
    lr = learners()["oneslack"](P.model, **options(c, max_iter=c["stop"]))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    lr.max_iter = MAX_ITER
    for m in c["modes"]:
        start = len(lr.objective_curve_)
        if not fit(lr, P.X, P.Y, warm_start=m, initialize=False):
            return
        check(len(lr.objective_curve_) > start, "nothing recorded")
        check_run(c, P, lr, "fit with warm_start=%r" % (m,), start)
    note(len(lr.objective_curve_) > 5, "warm %s" % c["modes"][0],
         kind=c["D"][0]["kind"], stop=c["stop"], cache=c["cache"] > 0)


# ------------------------------------------------------------------ switching
@st.composite
def switch_case(draw):
    return draw(case([k for k in TRAIN_KINDS if k not in zoo.FLAT]))


def f_switch(c):
    P = Program(c)
    model = zoo.make_model(c["D"][0], "unary")
    lr = learners()["oneslack"](model, switch_to="max-product", **options(c))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    check(model.inference_method == "max-product", "never switched to "
          "max-product (method %r)", model.inference_method)
    check_run(c, P, lr, "fit with switch_to", first_method_exact=False)
    note(any(len(zoo.edges_of(d)) for d in c["D"]) and
         len(lr.objective_curve_) > 3, kind=c["D"][0]["kind"])


# ------------------------------------------------------ negativity constraint
@st.composite
def neg_case(draw):
    c = draw(case())
    d = zoo.wsize(c["D"][0])
    c["neg"] = sorted(set(int(v) % d for v in gen.ints(
        draw, draw(st.integers(1, 3)), 64)))
    return c


def f_neg(c):
    P = Program(c)
    lr = learners()["oneslack"](P.model, negativity_constraint=list(c["neg"]),
                                **options(c, max_iter=60))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    w = np.asarray(lr.w, dtype=float)
    sc = 1 + np.abs(w).max(initial=0)
    check((w[c["neg"]] <= 1e-4 * sc).all(), "weights %s although constrained "
          "to be negative: %s", c["neg"], w[c["neg"]].tolist())
    free = learners()["oneslack"](P.model, **options(c, max_iter=60))
    nt = fit(free, P.X, P.Y, initialize=False) and \
        bool((free.w[c["neg"]] > 1e-3).any())
    note(nt, kind=c["D"][0]["kind"])


LEGS = [
    Leg("pruning", prune_case(), f_prune, quick=600, shards=3,
        rule="at least three constraints are stored, non-zero weights"),
    Leg("forest", case(), fn, quick=700, shards=3,
        rule="non-zero weights, several constraints"),
    Leg("loopy", case(["graph", "grid", "edge", "multilabel", "typed"], True),
        fn, quick=150, shards=2,
        rule="non-zero weights, several constraints"),
    Leg("warm", warm_case(), f_warm, quick=300, shards=2,
        rule="several constraints"),
    Leg("switch", switch_case(), f_switch, quick=200,
        rule="edges, several constraints"),
    Leg("negativity", neg_case(), f_neg, quick=150,
        rule="the unconstrained solution has a positive weight there"),
]
