import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import (Program, TRAIN_KINDS, draw_train, fit, learners,
                    method_of)

RULE = ("cases: training set, model, C and subgradient options; non-trivial: "
        "at least three steps, weights not zero")
ASSUMPTIONS = [
    "the most violated labelling is the one the model's own loss-augmented "
    "inference returns (judged by C09), so ties are broken alike; if weights "
    "differ and some step had a near-tie, the run is not judged",
    "n_jobs=2 runs under joblib's threading backend"]
TIE = 1e-9


class NearTie(Exception):
    pass


class Rec(object):
    def __init__(self):
        self.w, self.final = [], None

    def __call__(self, learner, iteration):
        if iteration == "final":
            self.final = np.array(learner.w)
        else:
            self.w.append(np.array(learner.w))


@st.composite
def case(draw, warm=False, kinds=TRAIN_KINDS):
    c = draw_train(draw, kinds, False, n_max=5)
    n = len(c["D"])
    c["momentum"] = draw(st.sampled_from([0.0, 0.5, 0.9]))
    rate = draw(st.sampled_from(["auto", 0.1, 0.01, 1.0]))
    c["decay"] = draw(st.sampled_from([1, 0, 0.5, 2]))
    c["t0"] = draw(st.sampled_from([10, 1, 3]))
    if rate == "auto" and c["decay"] == 0:
        rate = 0.1
    if rate != "auto":
        # steps above C * n make the recursion explode
        rate = min(rate, 0.5 * c["C"] * n)
    c["rate"] = rate
    c["averaging"] = draw(st.sampled_from([None, "linear", "squared"]))
    c["mode"] = draw(st.sampled_from(["seq", "one", "all", "batch", "jobs"]))
    if c["mode"] == "batch":
        c["bs"] = draw(st.integers(2, 3))
    c["iters"] = draw(st.integers(1, 12))
    c["brk"] = draw(st.booleans())
    c["start"] = (gen.arr(draw, zoo.wsize(c["D"][0]), "small")
                  if draw(st.booleans()) else None)
    if c["start"] is not None:
        c["start"] = zoo.project_w(c["D"][0], c["start"])
    c["warm"] = [draw(st.integers(1, 6)) for _ in range(
        draw(st.integers(1, 2)))] if warm else []
    return c


def make(c, P, **kw):
    o = dict(max_iter=c["iters"], C=c["C"], momentum=c["momentum"],
             learning_rate=c["rate"], decay_exponent=c["decay"],
             decay_t0=c["t0"], break_on_no_constraints=c["brk"],
             averaging=c["averaging"])
    m = c["mode"]
    if m == "one":
        o["batch_size"] = 1
    elif m == "all":
        o["batch_size"] = -1
    elif m == "batch":
        o["batch_size"] = c["bs"]
    elif m == "jobs":
        o["n_jobs"] = 2
    o.update(kw)
    lr = learners()["subgradient"](P.model, **o)
    if c["start"] is not None:
        lr.w = np.array(c["start"])
    return lr


def even_slices(n, k):
    """sklearn's gen_even_slices: the first n % k slices get one more."""
    out, s = [], 0
    for i in range(k):
        m = n // k + (1 if i < n % k else 0)
        if m:
            out.append(list(range(s, s + m)))
            s += m
    return out


class Recursion(object):
    """The documented recursion over an enumerated program."""

    def __init__(self, c, P):
        self.c, self.P = c, P
        self.model = zoo.make_model(c["D"][0], method_of(c))
        d = P.Fs[0].shape[1]
        self.w = np.zeros(d) if c["start"] is None else np.array(c["start"])
        self.out = self.w.copy()
        self.t = 0
        self.tie = False
        self.index = [{tuple(l): k for k, l in enumerate(labs.tolist())}
                      for labs in P.labs]
        self.steps = 0

    def constraint(self, i, y_hat, w):
        P, d = self.P, self.c["D"][i]
        k = self.index[i][tuple(zoo.from_model(d, y_hat, "y_hat"))]
        v = P.Ls[i] - P.Fs[i] @ w
        o = np.delete(v, k)
        sc = TIE * (1 + np.abs(v).max())
        far = np.abs(P.Fs[i] - P.Fs[i][k]).max(axis=1) > 0
        far = np.delete(far, k)
        if len(o) and (o[far] > v[k] - sc).any():
            self.tie = True
        if 0 < abs(v[k]) < sc:
            self.tie = True
        return P.Fs[i][k], P.Ls[i][k], max(0.0, float(v[k]))

    def step(self, g):
        c, n = self.c, self.P.n
        grad = g - self.w / (c["C"] * n)
        m = c["momentum"]
        self.g = (1 - m) * grad + m * self.g
        rate = c["C"] * n if c["rate"] == "auto" else c["rate"]
        if c["decay"] != 0:
            rate = rate / (self.t + c["t0"]) ** c["decay"]
        self.w = self.w + rate * self.g
        t = self.t
        if c["averaging"] == "linear":
            rho = 2.0 / (t + 2.0)
        elif c["averaging"] == "squared":
            rho = 6.0 * (t + 1) / ((t + 2) * (2 * t + 3))
        else:
            rho = 1.0
        self.out = (1 - rho) * self.out + rho * self.w
        if rho == 1.0:
            self.out = self.w.copy()
        self.t += 1
        self.steps += 1

    def epoch(self, order):
        """One pass; whether some constraint was violated."""
        c, P, mod = self.c, self.P, self.model
        X, Y = P.X, P.Y
        viol = False
        n = len(order)
        aug = lambda i, w: mod.loss_augmented_inference(X[i], Y[i], w,
                                                        relaxed=True)
        if c["mode"] in ("seq", "one"):
            for i in order:
                F, L, s = self.constraint(i, aug(i, self.w), self.w)
                viol |= s > 0
                self.step(F)
            return viol
        if c["mode"] == "jobs":
            for b in even_slices(n, -(-n // 2)):
                g = 0.0 * self.w
                for i in [order[j] for j in b]:
                    F, L, s = self.constraint(i, aug(i, self.w), self.w)
                    if s > 0:
                        viol = True
                        g = g + F
                self.step(g)
            return viol
        bl = [list(range(n))] if c["mode"] == "all" else \
            even_slices(n, -(-n // c["bs"]))
        for b in bl:
            idx = [order[j] for j in b]
            if isinstance(X, np.ndarray):
                Xb, Yb = X[idx], Y[idx]
            else:
                Xb, Yb = [X[i] for i in idx], [Y[i] for i in idx]
            Yh = mod.batch_loss_augmented_inference(Xb, Yb, self.w,
                                                    relaxed=True)
            g = 0.0 * self.w
            for i, y in zip(idx, Yh):
                g = g + self.constraint(i, y, self.w)[0]
            self.step(g / len(idx))
        return True       # mini-batches don't test for violations

    def run(self, iters, orders=None):
        """Weights after every completed iteration (the one that finds no
        violated constraint excluded)."""
        self.g = 0.0 * self.w
        hist = []
        stopped = False
        for it in range(iters):
            order = list(range(self.P.n)) if orders is None else orders[it]
            viol = self.epoch(order)
            if not viol and self.c["brk"]:
                stopped = True
                break
            hist.append(self.out.copy())
        return hist, stopped


def compare(R, what, got, want):
    sc = 1 + np.abs(want).max(initial=0)
    if np.shape(got) == np.shape(want) and \
            np.abs(got - want).max(initial=0) <= 1e-8 * sc:
        return
    if R.tie:
        raise NearTie()
    check(False, "%s: weights %s, the documented recursion gives %s", what,
          np.asarray(got).tolist(), want.tolist())


def check_fit(c, P, lr, R, rec, iters, what, orders=None, before=0):
    hist, stopped = R.run(iters, orders)
    if len(rec.w) != len(hist):
        if R.tie:
            raise NearTie()
        check(False, "%s: %d iterations, the recursion makes %d (stopping "
              "early: %s)", what, len(rec.w), len(hist), stopped)
    for i, (a, b) in enumerate(zip(rec.w, hist)):
        compare(R, "%s, iteration %d" % (what, i), a, b)
    compare(R, what, np.asarray(lr.w), R.out)
    compare(R, what + " (final log)", rec.final, R.out)
    obj = [float(v) for v in lr.objective_curve_][before:]
    check(len(obj) == len(rec.w) + 1, "%s: %d objective values for %d "
          "iterations", what, len(obj), len(rec.w))
    for v, w in zip(obj, rec.w + [np.asarray(lr.w)]):
        r = P.risk(w)
        check(close(v, r, r, 1e-8), "%s: objective %r, the risk of those "
              "weights is %r", what, v, r)
    return stopped


def fn(c):
    P = Program(c)
    rec = Rec()
    lr = make(c, P, logger=rec)
    R = Recursion(c, P)
    try:
        fit(lr, P.X, P.Y, initialize=False)
        stopped = check_fit(c, P, lr, R, rec, c["iters"], "fit")
        for k, it in enumerate(c["warm"]):
            before = len(lr.objective_curve_)
            lr.max_iter = it
            rec = lr.logger = Rec()
            R.w = R.out.copy()
            fit(lr, P.X, P.Y, warm_start=True, initialize=False)
            check_fit(c, P, lr, R, rec, it, "warm start %d" % k,
                      before=before)
    except NearTie:
        note(False, "near tie")
        return
    note(R.steps >= 3 and float(np.abs(lr.w).max(initial=0)) > 1e-9,
         "early stop" if stopped else "all iterations",
         mode=c["mode"], avg=c["averaging"], momentum=c["momentum"],
         decay=c["decay"], kind=c["D"][0]["kind"])


# -------------------------------------------------------------------- shuffle
@st.composite
def shuffle_case(draw):
    c = draw(case())
    c["mode"] = draw(st.sampled_from(["seq", "one"]))
    c["seed"] = draw(st.integers(0, 5))
    if c["D"][0]["kind"] in zoo.FLAT:
        D = zoo.draw_dataset(draw, "chain", 2, 5, cap=60, max_nodes=4,
                             profs=["small"], min_states=2)
        c["D"], c["start"] = D, None
    return c


def f_shuffle(c):
    P = Program(c)
    rec = Rec()
    lr = make(c, P, logger=rec, shuffle=True)
    ids = {id(x): i for i, x in enumerate(P.X)}
    seen = []
    orig = P.model.loss_augmented_inference

    def spy(x, y, *a, **k):
        i = ids.get(id(x))
        check(i is not None, "an unknown sample")
        check(np.array_equal(y, P.Y[i]), "sample %d with other labels", i)
        seen.append(i)
        return orig(x, y, *a, **k)
    P.model.loss_augmented_inference = spy
    state = np.random.get_state()
    np.random.seed(c["seed"])
    try:
        fit(lr, P.X, P.Y, initialize=False)
    finally:
        np.random.set_state(state)
        del P.model.loss_augmented_inference
    # per iteration: one pass of training, one for the objective; at the end
    # another one for the objective
    n = P.n
    orders = []
    for it in range(len(rec.w)):
        o = seen[2 * it * n:(2 * it + 1) * n]
        check(sorted(o) == list(range(n)), "iteration %d visits samples %s",
              it, o)
        orders.append(o)
    extra = c["iters"] - len(orders)
    if extra:
        o = seen[2 * len(orders) * n:(2 * len(orders) + 1) * n]
        check(sorted(o) == list(range(n)), "last iteration visits samples %s",
              o)
        orders += [o] * extra
    R = Recursion(c, P)
    try:
        check_fit(c, P, lr, R, rec, c["iters"], "fit with shuffle", orders)
    except NearTie:
        note(False, "near tie")
        return
    note(len(set(map(tuple, orders))) > 1, kind=c["D"][0]["kind"])


LEGS = [
    Leg("recursion", case(), fn, quick=1600, shards=4,
        rule="three or more steps, weights not zero"),
    Leg("warm", case(True), fn, quick=500, shards=2,
        rule="three or more steps, weights not zero"),
    Leg("shuffle", shuffle_case(), f_shuffle, quick=250,
        rule="iterations in different orders"),
]
