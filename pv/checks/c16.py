import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import (Program, TRAIN_KINDS, draw_train, fit, learners,
                    method_of, risk)

RULE = ("cases: training set, model, C and n-slack options; non-trivial: the "
        "optimal weights are not zero and some constraint was stored")
ASSUMPTIONS = [
    "the reference optimum is bracketed by a primal value and a dual value "
    "of the program with all labellings enumerated",
    "cvxopt's QP solutions are exact to 1e-5 relative; runs in which it "
    "reports failure are excused",
    "with tol > 0 the stopping rule (objective increased by less than tol) "
    "bounds the gap through the standard cutting-plane progress lemma"]
QP = 2e-5


def gap_bound(P, w, tol):
    """Largest risk gap compatible with an objective increase below tol (or no
    violated constraint at all)."""
    t = max(tol, 0.0) + QP * (1 + P.opt()[0])
    base = 2e-4 * (1 + P.opt()[0]) + P.C * P.n * 2e-5
    if tol < 0:
        return base
    delta = max(2 * t / P.C, np.sqrt(8 * P.R ** 2 * t))
    lip = np.linalg.norm(w) + P.C * P.n * P.R
    return base + P.C * P.n * delta + 2 * np.sqrt(2 * t) * lip


@st.composite
def case(draw, kinds=TRAIN_KINDS, exact=False):
    c = draw_train(draw, kinds, exact)
    c["batch_size"] = draw(st.sampled_from([100, 1, 2, -1, 3]))
    c["tol"] = draw(st.sampled_from([-10, -10, -10, 0, 1e-7, 1e-3]))
    c["window"] = draw(st.sampled_from([0, 50, 1, 3]))
    c["check"] = draw(st.booleans())
    c["bad"] = draw(st.booleans())
    c["n_jobs"] = 2 if draw(st.integers(0, 5)) == 0 else 1
    return c


def options(c, **kw):
    kw.setdefault("max_iter", 500)
    return dict(C=c["C"], batch_size=c["batch_size"], tol=c["tol"],
                inactive_window=c["window"], check_constraints=c["check"],
                n_jobs=c["n_jobs"], **kw)


def check_run(c, P, lr, what="fit", tol=None, max_iter=None):
    w = np.array(lr.w, dtype=float)
    d = P.Fs[0].shape[1]
    check(w.shape == (d,), "%s: w of shape %r", what, w.shape)
    up, lo = P.opt()
    r = P.risk(w)
    obj = [float(v) for v in lr.objective_curve_]
    pri = [float(v) for v in lr.primal_objective_curve_]
    tol = c["tol"] if tol is None else tol
    if c["exact"] and (abs(pri[-1] - r) > 1e-5 * (1 + r)
                       or r > up + gap_bound(P, w, tol)) and P.ad3_fails(w):
        note(False, "AD3 gave up")
        return False
    check(r <= up + gap_bound(P, w, tol) or
          max_iter is not None and len(obj) >= max_iter, "%s ended at weights of risk %r, "
          "the optimum is %r (tol %r)", what, r, up, tol)
    for v in obj:
        check(v <= up + QP * (1 + up) + P.grain(w), "%s reports a "
              "cutting-plane objective of %r above the optimum %r", what, v,
              up)
    if c["window"] == 0 and tol is not None:
        for a, b in zip(obj, obj[1:]):
            check(b >= a - QP * (1 + abs(a)), "%s: the cutting-plane "
                  "objective drops from %r to %r without pruning", what, a, b)
    check(close(pri[-1], r, r, 1e-5 if c["exact"] else 1e-8) or
          abs(pri[-1] - r) <= P.grain(w), "%s: final primal objective %r, "
          "the risk is %r", what, pri[-1], r)
    return True


def check_constraints(c, P, lr, what="fit"):
    """Stored constraints are those of their labellings."""
    check(len(lr.constraints_) == P.n, "constraints of %d samples",
          len(lr.constraints_))
    total = 0
    for i, (d, cons) in enumerate(zip(P.D, lr.constraints_)):
        index = {tuple(l): k for k, l in enumerate(P.labs[i].tolist())}
        for y_hat, dpsi, loss in cons:
            total += 1
            if isinstance(y_hat, tuple):
                continue      # relaxed (AD3 only); judged by C05
            k = index[tuple(zoo.from_model(d, y_hat, "constraint"))]
            F, L = P.Fs[i][k], P.Ls[i][k]
            check(np.allclose(dpsi, F, rtol=1e-9, atol=1e-9) and
                  close(float(loss), L), "%s: stored constraint of sample %d "
                  "(%s, loss %r) isn't that of its labelling (%s, %r)", what,
                  i, np.asarray(dpsi).tolist(), float(loss), F.tolist(), L)
    return total


def fn(c):
    P = Program(c)
    lr = learners()["nslack"](P.model, **options(c, break_on_bad=c["bad"] and
                                                 not c["exact"]))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    n = 0
    if check_run(c, P, lr):
        n = check_constraints(c, P, lr)
    note(n > 0 and float(np.abs(lr.w).max(initial=0)) > 1e-6,
         kind=c["D"][0]["kind"], C=c["C"], tol=c["tol"], window=c["window"],
         batch=c["batch_size"])


# ------------------------------------------------------------------ switching
@st.composite
def switch_case(draw):
    c = draw(case([k for k in TRAIN_KINDS if k not in zoo.FLAT]))
    c["first"] = draw(st.sampled_from(["unary", "lp"]))
    if c["tol"] <= 0:
        # lp solutions of ties are fractional and new each time: only the
        # objective tells that nothing is left to gain
        c["first"] = "unary"
    return c


def f_switch(c):
    P = Program(c)
    model = zoo.make_model(c["D"][0], c["first"])
    lr = learners()["nslack"](model, switch_to="max-product", **options(c))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    check(model.inference_method == "max-product", "never switched to "
          "max-product (method %r)", model.inference_method)
    ok = check_run(c, P, lr, "fit with switch_to")
    n = check_constraints(c, P, lr) if ok else 0
    note(n > 0 and any(len(zoo.edges_of(d)) for d in c["D"]),
         first=c["first"], kind=c["D"][0]["kind"])


# --------------------------------------------------------- given constraints
@st.composite
def given_case(draw, kinds=TRAIN_KINDS):
    c = draw(case(kinds))
    c["pick"] = [gen.ints(draw, draw(st.integers(0, 3)), 64)
                 for _ in c["D"]]
    c["resume"] = draw(st.booleans())
    return c


def f_given(c):
    P = Program(c)
    cons = []
    for d, F, L, labs, pick in zip(P.D, P.Fs, P.Ls, P.labs, c["pick"]):
        ks = sorted(set(int(k) % len(labs) for k in pick))
        cons.append([[zoo.to_model(d, labs[k]), F[k].copy(), float(L[k])]
                     for k in ks if L[k] > 0])
    lr = learners()["nslack"](P.model, **options(c))
    if c["resume"]:
        # from the constraints of an earlier fit
        lr.max_iter = 1
        if not fit(lr, P.X, P.Y, initialize=False):
            return
        cons = lr.constraints_
        lr.max_iter = 500
    before = [[(np.array(k[1]), float(k[2])) for k in s] for s in cons]
    if not fit(lr, P.X, P.Y, constraints=cons, initialize=False):
        return
    check([len(s) for s in before] == [len(s) for s in cons] and
          all(np.array_equal(a[0], b[1]) and a[1] == b[2]
              for s, t in zip(before, cons) for a, b in zip(s, t)),
          "fit changed the constraints it was given")
    ok = check_run(dict(c, window=1), P, lr, "fit with constraints")
    n = check_constraints(c, P, lr) if ok else 0
    note(n > 0 and any(before), kind=c["D"][0]["kind"], resume=c["resume"])


# ------------------------------------------------------ negativity constraint
@st.composite
def neg_case(draw):
    c = draw(case())
    d = zoo.wsize(c["D"][0])
    c["neg"] = sorted(set(int(v) % d for v in gen.ints(
        draw, draw(st.integers(1, 3)), 64)))
    return c


def f_neg(c):
    P = Program(c)
    lr = learners()["nslack"](P.model, negativity_constraint=list(c["neg"]),
                              **options(c, max_iter=50))
    if not fit(lr, P.X, P.Y, initialize=False):
        return
    w = np.asarray(lr.w, dtype=float)
    sc = 1 + np.abs(w).max(initial=0)
    check((w[c["neg"]] <= 1e-4 * sc).all(), "weights %s although constrained "
          "to be negative: %s", c["neg"], w[c["neg"]].tolist())
    check_constraints(c, P, lr)
    free = learners()["nslack"](P.model, **options(c, max_iter=50))
    nt = fit(free, P.X, P.Y, initialize=False) and \
        bool((free.w[c["neg"]] > 1e-3).any())
    note(nt, kind=c["D"][0]["kind"])


# ------------------------------------------------------------------- pruning
@st.composite
def prune_case(draw):
    many = draw(st.booleans())
    c = draw_train(draw, ["multiclass", "binary", "multiclass", "graph"]
                   if many else TRAIN_KINDS, n_max=14 if many else 4,
                   n_min=6 if many else 1)
    c["batch_size"] = draw(st.sampled_from([100, 1, -1, 3]))
    c["tol"] = draw(st.sampled_from([-10, -10, 1e-3]))
    c["window"] = draw(st.sampled_from([1, 1, 2, 3, 0]))
    c["check"] = draw(st.booleans())
    c["n_jobs"] = 1
    c["iters"] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 13, 300]))
    return c


def restricted(F, L, C, w, obj, what, n):
    """w solves the program of the stored constraints, whose value is obj:
    only constraints that did not matter were removed."""
    p, d, _ = ref.qp_risk_min(F, L, C)
    r = max([float(np.sqrt((f ** 2).sum(1)).max()) for f in F])
    t = 3e-4 * (1 + obj) + 1e-4 * C * n * (1 + r)
    check(p >= obj - t, "%s: the stored constraints have the optimum %r, the "
          "reported cutting-plane objective is %r", what, p, obj)
    v = risk(F, L, C, w)
    check(v <= obj + t, "%s: the weights have the value %r on the stored "
          "constraints, reported was %r", what, v, obj)


def f_prune(c):
    model = zoo.make_model(c["D"][0], method_of(c))
    X, Y = zoo.get_XY(c["D"])
    lr = learners()["nslack"](model, **options(c, max_iter=c["iters"]))
    if not fit(lr, X, Y, initialize=False):
        return
    w = np.array(lr.w, dtype=float)
    F = [np.array([k[1] for k in s] + [np.zeros(len(w))], dtype=float)
         for s in lr.constraints_]
    L = [np.array([float(k[2]) for k in s] + [0.]) for s in lr.constraints_]
    restricted(F, L, c["C"], w, float(lr.objective_curve_[-1]), "fit", len(X))
    note(sum(map(len, F)) > 2 * len(F) and np.abs(w).max(initial=0) > 1e-6,
         iters=c["iters"], window=c["window"], many=len(X) > 5)


LEGS = [
    Leg("forest", case(), fn, quick=700, shards=3,
        rule="non-zero weights, constraints stored"),
    Leg("loopy", case(["graph", "grid", "edge", "multilabel", "typed"], True),
        fn, quick=200, shards=2,
        rule="non-zero weights, constraints stored"),
    Leg("switch", switch_case(), f_switch, quick=250, shards=2,
        rule="edges, constraints stored"),
    Leg("given", given_case(), f_given, quick=300, shards=2,
        rule="some constraints given"),
    Leg("pruning", prune_case(), f_prune, quick=600, shards=3,
        rule="more constraints than samples are stored, non-zero weights"),
    Leg("negativity", neg_case(), f_neg, quick=200,
        rule="the unconstrained solution has a positive weight there"),
]
