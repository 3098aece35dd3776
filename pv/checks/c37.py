"""Training with relaxed inference solves the relaxed program."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, Violation, note
from ..zoo import check, close
from . import c16, c17, c18
from .learn import RelaxedProgram, TRAIN_PROFILES, fit, learners

RULE = ("cases: training set on any graph (mostly with cycles), model, "
        "learner options; non-trivial: the learned weights are not zero and "
        "several constraints or steps were made")
ASSUMPTIONS = [
    "the reference optimum of the program over the local polytope is "
    "bracketed by a cutting-plane loop whose separation is HiGHS",
    "the LP and QP solutions of cvxopt are exact to 1e-5 relative; runs in "
    "which the QP solver reports failure are excused"]
KINDS = ["graph", "graph", "grid", "edge", "multilabel", "chain", "dgrid"]
AD3 = ["graph", "edge", "typed", "typed", "multilabel"]
GRAPHS = ["cycle", "complete", "complete", "general", "tree"]


def dataset(draw, kinds=KINDS, method="lp"):
    n_max = 3 if method == "lp" else 2
    kind = draw(st.sampled_from(kinds))
    D = zoo.draw_dataset(draw, kind, 1, n_max, cap=100, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES, min_states=2,
                         graph_kinds=GRAPHS)
    return dict(D=D, exact=True, method=method,
                C=draw(st.sampled_from([1.0, 0.1, 0.01, 10.0])))


def frustrated(draw, method="lp"):
    """Cycles of two-state nodes told apart by their edges only: optima of
    the relaxation are fractional and agree in their nodes."""
    n_samples = draw(st.integers(1, 2))
    nef = draw(st.integers(1, 3))
    cw = gen.class_weight(draw, 2)
    D = []
    for _ in range(n_samples):
        n = draw(st.integers(3, 5))
        E = gen.graph(draw, n, draw(st.sampled_from(["cycle", "complete",
                                                     "general"])))
        x = np.zeros((n, 1)) if draw(st.booleans()) else \
            gen.arr(draw, (n, 1), "tie")
        ef = np.clip(gen.arr(draw, (len(E), nef), "int"), -3, 3)
        D.append(dict(kind="edge", F=1, S=2, nef=nef, sym=[], anti=[], cw=cw,
                      x=x, edges=E, ef=ef, n=n, w=np.zeros(2 + 4 * nef),
                      y=gen.ints(draw, n, 2)))
    return dict(D=D, exact=True, method=method,
                C=draw(st.sampled_from([1.0, 0.1, 10.0])))


@st.composite
def with_options(draw, base, **kw):
    """The options of another check's case around a dataset of this one."""
    c = draw(base)
    hard = kw.pop("hard", False)
    c.update(frustrated(draw, kw.get("method", "lp")) if hard else dataset(draw, **kw))
    c["tol"] = max(c["tol"], 1e-4)
    return c


def marginals(D, y):
    """A stored (relaxed) labelling in the order of lp_optimum."""
    if not isinstance(y, tuple):
        return RelaxedProgram.one_hot(zoo.problem(D),
                                      zoo.from_model(D, y, "constraint"))
    u, p = y
    S = zoo.problem(D)
    n = sum(len(v) for v in S[0])
    k = sum(v.size for v in S[2])
    flat = lambda m: np.concatenate(
        [np.asarray(v, dtype=float).ravel() for v in m]) \
        if isinstance(m, list) else np.asarray(m, dtype=float).ravel()
    u, p = flat(u), flat(p)
    check(u.size == n and p.size == k, "marginals of %d and %d entries, "
          "expected %d and %d", u.size, p.size, n, k)
    return np.concatenate([u, p])


def excused(f):
    """AD3 gives up on some problems; then nothing is said."""
    def g(c):
        P = RelaxedProgram(c)
        ws = P.watch() if c["method"] == "ad3" else []
        try:
            f(c, P)
        except Violation:
            if not any(P.ad3_fails(w) for w in ws):
                raise
            note(False, "AD3 gave up")
    return g


@excused
def f_nslack(c, P):
    it = 40 if c["method"] == "ad3" else 500
    lr = learners()["nslack"](P.model, **c16.options(c, max_iter=it))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    if not c16.check_run(c, P, lr, max_iter=it):
        return
    frac = total = 0
    for i, cons in enumerate(lr.constraints_):
        for y, dpsi, loss in cons:
            mu = marginals(P.D[i], y)
            F, L = P.pair(i, mu)
            total += 1
            frac += bool(np.abs(mu - np.round(mu)).max(initial=0) > 1e-3)
            sc = 1 + np.abs(F).max(initial=0)
            check(np.allclose(dpsi, F, rtol=0, atol=1e-7 * sc) and
                  close(float(loss), L, 1 + L, 1e-7), "stored constraint of "
                  "sample %d (%s, loss %r) isn't that of its marginals (%s, "
                  "%r)", i, np.asarray(dpsi).tolist(), float(loss),
                  F.tolist(), L)
    note(total > 0 and np.abs(lr.w).max(initial=0) > 1e-6,
         "fractional" if frac else "integral", kind=c["D"][0]["kind"],
         batch=c["batch_size"])


def spy(model):
    """Keeps what batch_loss_augmented_inference returned, call by call."""
    calls = []
    real = model.batch_loss_augmented_inference

    def record(*a, **k):
        r = real(*a, **k)
        calls.append([repr(y) for y in r])
        return r
    model.batch_loss_augmented_inference = record
    return calls


@excused
def f_oneslack(c, P):
    # AD3 works up to 4000 iterations on each fractional problem
    it = 40 if c["method"] == "ad3" else c17.MAX_ITER
    lr = learners()["oneslack"](P.model, **c17.options(c, max_iter=it))
    calls = spy(P.model)
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    if not c17.check_run(c, P, lr, max_iter=it):
        return
    # what is cached belongs together
    frac = False
    for i, entry in enumerate(getattr(lr, "inference_cache_", None) or []):
        # the last call found nothing worth keeping
        found = set(k[i] for k in calls[:-1])
        check(len(found) > c["cache"] or len(entry) >= len(found),
              "%d cached of sample %d, inference found %d different results, "
              "inference_cache=%d", len(entry), i, len(found), c["cache"])
        check(len(entry) <= c["cache"] + 1, "%d cached of at most %d",
              len(entry), c["cache"])
        for psi, loss, y in entry:
            mu = marginals(P.D[i], y)
            F, L = P.pair(i, mu)
            frac |= bool(np.abs(mu - np.round(mu)).max(initial=0) > 1e-3)
            want = P.g[i] - F
            check(np.allclose(psi, want, rtol=0, atol=1e-7 *
                              (1 + np.abs(want).max(initial=0))) and
                  close(float(loss), L, 1 + L, 1e-7), "cached joint feature "
                  "%s and loss %r of sample %d aren't those of its marginals "
                  "(%s, %r)", np.asarray(psi).tolist(), float(loss), i,
                  want.tolist(), L)
    note(len(lr.objective_curve_) > 3 and
         float(np.abs(lr.w).max(initial=0)) > 1e-6,
         "fractional" if frac else "other",
         "cached" if any(lr.cached_constraint_) else "fresh",
         kind=c["D"][0]["kind"])


def f_fw(c):
    c18.fn(c, RelaxedProgram)


# --------------------------------------------------------- against each other
@st.composite
def agree_case(draw):
    c = dataset(draw)
    c["C"] = draw(st.sampled_from([1.0, 0.1, 0.5]))
    c["names"] = sorted(draw(st.sets(st.sampled_from(
        ["nslack", "oneslack", "frankwolfe", "subgradient"]), min_size=2,
        max_size=3)))
    c["batch"] = draw(st.booleans())
    return c


def f_agree(c):
    """Curves and scores of the learners are those of the relaxed program;
    predictions are rounded."""
    P = RelaxedProgram(c)
    up, lo = P.opt()
    nt = False
    for name in c["names"]:
        kw = {"C": c["C"]}
        if name == "nslack":
            kw["max_iter"] = 200
        elif name == "oneslack":
            kw["max_iter"] = 300
        elif name == "frankwolfe":
            kw.update(max_iter=20, batch_mode=c["batch"])
        else:
            kw.update(max_iter=10, break_on_no_constraints=False)
        lr = learners()[name](P.model, **kw)
        if not fit(lr, P.X, P.Y, initialize=False):
            continue
        w = np.asarray(lr.w, dtype=float)
        r = P.risk(w)
        check(r >= lo - 1e-5 * (1 + lo), "reference: risk %r below %r", r, lo)
        curve = "objective_curve_" if name == "subgradient" else \
            "primal_objective_curve_"
        v = float(getattr(lr, curve)[-1])
        check(close(v, r, 1 + r, 1e-5) or abs(v - r) <= P.grain(w),
              "%s: final primal objective %r, the "
              "relaxed risk is %r", name, v, r)
        # n-slack sums slacks found at different weights on the way
        for o in getattr(lr, curve)[-1 if name == "nslack" else 0:]:
            check(o >= lo - 2e-5 * (1 + up) - P.grain(w), "%s: primal value %r below the "
                  "relaxed optimum %r", name, float(o), lo)
        Yh = lr.predict(P.X)
        for D, x, y in zip(P.D, P.X, Yh):
            check(not isinstance(y, tuple), "%s predicts marginals", name)
            zoo.from_model(D, y, "prediction")
        nt |= bool(np.abs(w).max(initial=0) > 1e-6)
    note(nt, kind=c["D"][0]["kind"])


LEGS = [
    Leg("nslack", with_options(c16.case(["graph"])), f_nslack, quick=120,
        shards=3, rule="constraints stored, non-zero weights"),
    Leg("oneslack", with_options(c17.case(["graph"])), f_oneslack, quick=120,
        shards=3, rule="non-zero weights, several constraints"),
    Leg("frankwolfe", with_options(c18.case(["graph"])), f_fw, quick=100,
        shards=3, rule="non-zero optimum, more than one iteration"),
    Leg("nslack_ad3", with_options(c16.case(["graph"]), kinds=AD3,
                                   method="ad3"), f_nslack, quick=80,
        shards=2, rule="constraints stored, non-zero weights"),
    Leg("oneslack_ad3", with_options(c17.case(["graph"]), kinds=AD3,
                                     method="ad3"), f_oneslack, quick=80,
        shards=2, rule="non-zero weights, several constraints"),
    Leg("nslack_edges", with_options(c16.case(["graph"]), hard=True),
        f_nslack, quick=100, shards=2,
        rule="constraints stored, non-zero weights"),
    Leg("nslack_edges_ad3", with_options(c16.case(["graph"]), hard=True,
                                         method="ad3"),
        f_nslack, quick=80, shards=2,
        rule="constraints stored, non-zero weights"),
    Leg("oneslack_edges", with_options(c17.case(["graph"]), hard=True),
        f_oneslack, quick=100, shards=2,
        rule="non-zero weights, several constraints"),
    Leg("agree", agree_case(), f_agree, quick=100, shards=2,
        rule="non-zero weights"),
]
