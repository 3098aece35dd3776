import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import Program, TRAIN_KINDS, draw_train, fit, learners

RULE = ("cases: training set, model, C and Frank-Wolfe options; non-trivial: "
        "the optimal dual value isn't zero and the weights moved at least "
        "twice")
ASSUMPTIONS = [
    "the reference optimum is bracketed by a primal value and a dual value "
    "of the program with all labellings enumerated",
    "a rate bound of Frank-Wolfe (2 * curvature / (k + 2)) is demanded of "
    "the batch mode; the block-coordinate mode, whose bound holds in "
    "expectation, is given ten times its bound"]


class Rec(object):
    def __init__(self):
        self.w = []
        self.final = None

    def __call__(self, learner, iteration):
        if iteration == "final":
            self.final = np.array(learner.w)
        else:
            self.w.append(np.array(learner.w))


@st.composite
def case(draw, kinds=TRAIN_KINDS, exact=False, mode=None):
    c = draw_train(draw, kinds, exact)
    c["batch"] = draw(st.booleans()) if mode is None else mode
    c["ls"] = draw(st.sampled_from([True, True, False]))
    c["every"] = draw(st.sampled_from([10, 1, 2, 5]))
    c["avg"] = draw(st.booleans())
    c["sample"] = draw(st.sampled_from(["perm", "rnd", "seq"]))
    c["tol"] = draw(st.sampled_from([1e-3, 1e-2, 0.1, -1]))
    c["iters"] = draw(st.sampled_from([1, 2, 7, 30, 100, 300]))
    c["seed"] = draw(st.integers(0, 3))
    return c


def run(c, P, **kw):
    rec = Rec()
    o = dict(C=c["C"], batch_mode=c["batch"], line_search=c["ls"],
             check_dual_every=c["every"], do_averaging=c["avg"],
             sample_method=c["sample"], tol=c["tol"], max_iter=c["iters"],
             random_state=c["seed"], logger=rec)
    o.update(kw)
    lr = learners()["frankwolfe"](P.model, **o)
    check(fit(lr, P.X, P.Y, initialize=False), "no fit")
    return lr, rec


def fn(c, program=Program):
    P = program(c)
    up, lo = P.opt()
    lr, rec = run(c, P)
    w = np.array(lr.w, dtype=float)
    obj = [float(v) for v in lr.objective_curve_]
    pri = [float(v) for v in lr.primal_objective_curve_]
    eps = 1e-7 * (1 + up) + P.grain(w)
    done = len(rec.w)
    check(1 <= done <= c["iters"], "%d iterations of %d", done, c["iters"])
    check(len(obj) == len(pri), "curves of lengths %d and %d", len(obj),
          len(pri))
    check(np.array_equal(rec.final, w), "weights change after the final "
          "logging")

    def excuse():
        return c["exact"] and P.ad3_fails(w)
    # weak duality
    for v in obj:
        if v > up + eps:
            check(excuse(), "dual value %r above the optimum %r", v, up)
            return
    for v in pri:
        if v < lo - eps:
            check(excuse(), "primal value %r below the optimum %r", v, lo)
            return
    # primal values are the risks of the weights at the time
    if c["batch"]:
        when = [np.zeros_like(w)] + rec.w[:-1]
        check(len(pri) == done + 1, "%d values for %d iterations", len(pri),
              done)
    else:
        when = [v for i, v in enumerate(rec.w) if i % c["every"] == 0]
        check(len(pri) == len(when) + 1, "%d values for %d iterations, "
              "check_dual_every=%d", len(pri), done, c["every"])
    for v, u in zip(pri, when + [w]):
        r = P.risk(u)
        if not close(v, r, r, 1e-5 if c["exact"] else 1e-7) and \
                abs(v - r) > P.grain(u):
            check(excuse(), "primal value %r, the risk of those weights is "
                  "%r", v, r)
            return
    # progress
    plain = c["batch"] or not c["avg"]
    if c["ls"] and plain:
        for a, b in zip(obj, obj[1:]):
            check(b >= a - eps, "the dual value drops from %r to %r with "
                  "line search", a, b)
    diam = P.diameters()
    if c["batch"]:
        curv = (c["C"] * sum(diam)) ** 2
        for k, v in enumerate(obj[:-1]):
            if k and v < lo - 2 * curv / (k + 2) - eps:
                check(excuse(), "dual value %r after %d steps, the optimum "
                      "is %r and Frank-Wolfe guarantees %r", v, k, lo,
                      lo - 2 * curv / (k + 2))
    else:
        curv = sum((c["C"] * v) ** 2 for v in diam)
        n = P.n
        for i, v in enumerate(obj[:-1]):
            k = n * (i * c["every"] + 1)
            bound = 2. * n * (curv + lo) / (k + 2 * n)
            if v < lo - 10 * bound - eps:
                check(excuse(), "dual value %r after %d steps, the optimum "
                      "is %r and the expected gap at most %r", v, k, lo,
                      bound)
    # the weights are as far from the optimum as the gap says at most
    conv = done < c["iters"]
    gaps = [a - b for a, b in zip(pri[:-1], obj[:-1])]
    if conv:
        check(c["tol"] > 0 and gaps[-1] <= c["tol"] * (
            c["C"] * P.n if c["batch"] else 1.0) + eps, "stopped after %d of "
            "%d iterations at gap %r, tol %r", done, c["iters"], gaps[-1],
            c["tol"])
        if not c["batch"]:
            r = P.risk(w)
            if r > up + c["tol"] + eps:
                check(excuse(), "converged to weights of risk %r, the "
                      "optimum is %r, tol %r", r, up, c["tol"])
        elif c["ls"]:
            ws = P.best()
            dist = float(np.linalg.norm(w - ws))
            lim = np.sqrt(2 * (max(gaps[-1], 0) + eps)) + \
                np.sqrt(2 * max(up - lo, 0) + 1e-9)
            if dist > lim + 1e-6:
                check(excuse(), "converged weights are %r from the optimum, "
                      "the gap %r allows %r", dist, gaps[-1], lim)
    elif c["tol"] > 0 and c["every"] == 1 and gaps and not c["batch"]:
        check(gaps[-1] >= c["tol"] - eps or done == c["iters"],
              "did not stop at gap %r", gaps[-1])
    note(lo > 1e-6 and done > 1, "converged" if conv else "stopped",
         "batch" if c["batch"] else "bc", kind=c["D"][0]["kind"],
         ls=c["ls"], avg=c["avg"], sample=c["sample"])


# --------------------------------------------------------------- repeatability
def f_repeat(c):
    from sklearn.base import clone
    P = Program(c)
    c = dict(c, iters=min(c["iters"], 30))
    lr, rec = run(c, P)
    w, obj = np.array(lr.w), list(lr.objective_curve_)
    lr2, rec2 = run(c, P)
    check(np.array_equal(w, lr2.w) and obj == list(lr2.objective_curve_),
          "two fits with random_state=%d differ", c["seed"])
    lr.logger = None
    check(fit(lr, P.X, P.Y, initialize=False), "no fit")
    check(np.array_equal(w, lr.w), "refitting with random_state=%d differs",
          c["seed"])
    nt = False
    if not c["batch"]:
        # the order of the samples follows the option
        other, _ = run(c, P, random_state=c["seed"] + 1)
        if c["sample"] == "seq":
            check(np.array_equal(other.w, w), "sequential order depends on "
                  "the random state")
        nt = not np.array_equal(other.w, w) or c["sample"] == "seq"
    note(nt and P.n > 1 and float(np.abs(w).max(initial=0)) > 0,
         sample=c["sample"], batch=c["batch"])


# ------------------------------------------------------------------ averaging
@st.composite
def avg_case(draw):
    c = draw(case(mode=False))
    c["D"] = c["D"][:1]
    c.update(tol=-1, iters=draw(st.integers(2, 25)))
    return c


def f_avg(c):
    """With one sample every iteration is one step: the averaged weights are
    the paper's weighted average, step k counting (k + 1) times."""
    P = Program(c)
    _, rec = run(c, P, do_averaging=False)
    lr, rec2 = run(c, P, do_averaging=True)
    k = np.arange(1, len(rec.w) + 1, dtype=float)
    want = (k[:, None] * np.array(rec.w)).sum(0) / k.sum()
    sc = 1 + np.abs(np.array(rec.w)).max()
    if not np.allclose(lr.w, want, rtol=0, atol=1e-9 * sc):
        check(False, "averaged weights %s, the weighted average of the "
              "iterates is %s", lr.w.tolist(), want.tolist())
    note(len(set(map(tuple, np.round(rec.w, 6).tolist()))) > 2,
         kind=c["D"][0]["kind"], ls=c["ls"])


# ---------------------------------------------------------------- every step
@st.composite
def step_case(draw):
    c = draw(case(mode=False))
    c.update(tol=draw(st.sampled_from([1e-3, -1])), every=0,
             iters=draw(st.integers(1, 12)))
    return c


def f_steps(c):
    """The block-coordinate steps and their weighted average are the paper's,
    given the labellings that inference returned."""
    P = Program(c)
    n, C = P.n, c["C"]
    same = [i for i in range(n) for j in range(i) if
            repr(zoo.get_x(P.D[i])) == repr(zoo.get_x(P.D[j])) and
            repr(P.D[i]["y"]) == repr(P.D[j]["y"])]
    calls = []
    real = P.model.loss_augmented_inference

    def record(x, y, w, *a, **k):
        h = real(x, y, np.array(w), *a, **k)
        if len(calls) < n * c["iters"] + 1:
            calls.append((repr(x), repr(y), np.array(w, dtype=float),
                          np.array(h), x, y))
        return h
    P.model.loss_augmented_inference = record
    lr, rec = run(c, P)
    del P.model.loss_augmented_inference
    check(len(rec.w) == c["iters"], "%d iterations, max_iter=%d", len(rec.w),
          c["iters"])
    if same:
        note(False)
        return
    keys = [(repr(x), repr(y)) for x, y in zip(P.X, P.Y)]
    total = n * c["iters"]
    check(len(calls) >= total, "%d steps for %d iterations of %d samples",
          len(calls), c["iters"], n)
    order = [keys.index(k[:2]) for k in calls[:total]]
    for e in range(c["iters"]):
        o = order[e * n:(e + 1) * n]
        if c["sample"] == "seq":
            check(o == list(range(n)), "sequential order %r", o)
        elif c["sample"] == "perm":
            check(sorted(o) == list(range(n)), "order %r is no permutation",
                  o)
    d = len(calls[0][2])
    w, wm, lm = np.zeros(d), np.zeros((n, d)), np.zeros(n)
    avg, lavg, mass = np.zeros(d), 0., 0.
    resc = bool(getattr(P.model, "rescale_C", False))
    for k in range(total):
        i = order[k]
        _, _, wk, h, x, y = calls[k]
        sc = 1 + np.abs(w).max()
        check(np.allclose(wk, w, rtol=0, atol=1e-7 * sc), "step %d on sample "
              "%d works with weights %s, the recursion gives %s", k, i,
              wk.tolist(), w.tolist())
        h = h if np.ndim(h) else h[()]
        jf = (lambda v: P.model.joint_feature(x, v, y)) if resc else \
            (lambda v: P.model.joint_feature(x, v))
        ws = C * (np.asarray(jf(y)) - np.asarray(jf(h)))
        ls = float(P.model.loss(y, h)) / n
        if c["ls"]:
            diff = wm[i] - ws
            g = (diff @ w - C * n * (lm[i] - ls)) / (diff @ diff + 1e-15)
            g = max(0.0, min(1.0, g))
        else:
            g = 2. * n / (k + 2. * n)
        old = wm[i].copy()
        wm[i] = (1 - g) * wm[i] + g * ws
        lm[i] = (1 - g) * lm[i] + g * ls
        w = w + wm[i] - old
        mass += k + 1
        avg += (k + 1) * w
        lavg += (k + 1) * lm.sum()
        if (k + 1) % n == 0:
            want = avg / mass if c["avg"] else w
            got = rec.w[(k + 1) // n - 1]
            check(np.allclose(got, want, rtol=0, atol=1e-7 * sc), "weights "
                  "%s after iteration %d, the %s is %s", got.tolist(),
                  k // n, "weighted average" if c["avg"] else "iterate",
                  want.tolist())
    want = avg / mass if c["avg"] else w
    l = lavg / mass if c["avg"] else lm.sum()
    dual = -0.5 * float(want @ want) + l * n * C
    check(len(lr.objective_curve_) == 1 and
          close(float(lr.objective_curve_[0]), dual, 1 + abs(dual) +
                float(want @ want) + l * n * C, 1e-7),
          "dual values %r without dual checks, the recursion ends at %r",
          list(lr.objective_curve_), dual)
    note(n > 1 and c["iters"] > 1 and dual > 1e-6,
         sample=c["sample"], ls=c["ls"], avg=c["avg"])


# ------------------------------------------------- convergence to the optimum
@st.composite
def conv_case(draw):
    c = draw(case())
    c.update(ls=True, tol=0.01, iters=2000, every=10)
    c["C"] = draw(st.sampled_from([0.1, 1.0, 0.5]))
    return c


LEGS = [
    Leg("batch", case(mode=True), fn, quick=600, shards=2,
        rule="non-zero optimum, more than one iteration"),
    Leg("block", case(mode=False), fn, quick=800, shards=3,
        rule="non-zero optimum, more than one iteration"),
    Leg("loopy", case(["graph", "grid", "edge", "multilabel", "typed"], True),
        fn, quick=120, shards=2,
        rule="non-zero optimum, more than one iteration"),
    Leg("long", conv_case(), fn, quick=120, shards=2,
        rule="non-zero optimum, more than one iteration"),
    Leg("averaging", avg_case(), f_avg, quick=200,
        rule="at least three different iterates"),
    Leg("steps", step_case(), f_steps, quick=300,
        rule="several samples and iterations, the dual value rises"),
    Leg("repeat", case(), f_repeat, quick=200,
        rule="order matters or is fixed"),
]
