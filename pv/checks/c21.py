"""C21: latent-variable training (concave-convex procedure over a convex
base learner; latent subgradient descent) against enumeration of all latent
labellings."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c19 import NearTie, Rec, compare, even_slices
from .learn import TRAIN_PROFILES, fit, learners

RULE = ("cases: latent training set, initial completion, base learner and "
        "options; non-trivial: the completion changed at least once (cccp), "
        "three or more steps with non-zero weights (subgradient)")
ASSUMPTIONS = [
    "an n-slack base learner leaves out constraints without loss by design; "
    "outer iterations in which such a constraint hides another one are not "
    "judged",
    "completions that are tied up to rounding are not predicted, only their "
    "score is judged",
    "cvxopt's QP solutions are exact to 1e-5 relative; runs in which it "
    "reports failure are excused"]
KINDS = ["latgraph", "latgrid", "latdgrid", "latnode", "eflatnode"]
TIE = 1e-7


def draw_latent(draw, kinds=KINDS, n_max=4, cap=90):
    kind = draw(st.sampled_from(kinds))
    D = zoo.draw_dataset(draw, kind, 1, n_max, cap=cap, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES,
                         graph_kinds=gen.FOREST_KINDS)
    if draw(st.integers(0, 9)):
        # every label occurs
        left = list(range(D[0]["n_labels"]))
        for d in D[::-1]:
            d["y"] = np.array(d["y"])
            for i, lab in enumerate(zoo.labels_of_states(d)):
                if lab is not None and left:
                    d["y"][i] = int(np.where(lab == left.pop())[0][-1])
    return dict(D=D, C=draw(st.sampled_from([1.0, 10.0, 0.1, 3.0])))


class LatProgram(object):
    """All latent labellings of every sample."""

    def __init__(self, c):
        D = self.D = c["D"]
        self.C, self.n = c["C"], len(D)
        self.model = zoo.make_model(D[0], "max-product")
        self.other = zoo.make_model(D[0], "max-product")
        self.X, self.H = zoo.get_XY(D)
        self.Y = [zoo.label_y(d, d["y"]) for d in D]
        self.phi, self.L, self.ok, self.labs, self.index = [], [], [], [], []
        for d, x in zip(D, self.X):
            labs = ref.all_labelings([len(a) for a in zoo.allowed(d)])
            self.labs.append(labs)
            self.index.append({tuple(l): k for k, l in
                               enumerate(labs.tolist())})
            self.phi.append(np.array([self.other.joint_feature(
                x, zoo.to_model(d, l)) for l in labs], dtype=float))
            self.L.append(np.array([zoo.loss_ref(d, d["y"], l)
                                    for l in labs]))
            ok = np.ones(len(labs), dtype=bool)
            for i, l in enumerate(zoo.labels_of_states(d)):
                if l is not None:
                    ok &= l[labs[:, i]] == l[d["y"][i]]
            self.ok.append(ok)
        self.R = max(float(np.sqrt(((p - p[o][0]) ** 2).sum(1)).max())
                     for p, o in zip(self.phi, self.ok))

    def covered(self):
        seen = set()
        for y in self.Y:
            seen |= set(np.ravel(y).tolist())
        return len(seen) == self.D[0]["n_labels"]

    def slack(self, w):
        """Latent slacks: best score plus loss minus the best completion."""
        return np.array([float((p @ w + L).max() - (p[o] @ w).max())
                         for p, L, o in zip(self.phi, self.L, self.ok)])

    def objective(self, w):
        return 0.5 * float(w @ w) + self.C * float(self.slack(w).sum())

    def idx(self, i, h, what):
        return self.index[i][tuple(zoo.from_model(self.D[i], h, what))]

    def complete(self, i, w):
        """(index of the model's completion at w, whether it is tied)"""
        k = self.idx(i, self.other.latent(self.X[i], self.Y[i], w), "latent")
        s = self.phi[i] @ w
        far = self.ok[i] & (np.abs(self.phi[i] - self.phi[i][k]).max(1) > 0)
        tie = bool((s[far] > s[k] - TIE * (1 + np.abs(s).max())).any())
        if (self.ok[i] & ~far).sum() > 1:
            tie = True          # another labelling, the same joint feature
        return k, tie

    def convex(self, hs, lossy):
        """Constraints of the completed problem; `lossy`: only those with a
        loss."""
        Fs, Ls = [], []
        for i, k in enumerate(hs):
            F, L = self.phi[i][k] - self.phi[i], self.L[i]
            m = L > 0 if lossy else np.ones(len(L), dtype=bool)
            m[k] = True
            Fs.append(F[m])
            Ls.append(L[m])
        return Fs, Ls


@st.composite
def case(draw, kinds=KINDS):
    c = draw_latent(draw, kinds, n_max=6)
    c["base"] = draw(st.sampled_from(["oneslack", "nslack"]))
    c["tol"] = draw(st.sampled_from([1e-3, 1e-4, 1e-2]))
    c["window"] = draw(st.sampled_from([50, 0, 3, 10]))
    c["cache"] = draw(st.sampled_from([0, 0, 1, 10]))
    c["bs"] = draw(st.sampled_from([100, 1, 2, -1]))
    c["check"] = draw(st.booleans())
    c["iters"] = draw(st.sampled_from([5, 2, 3, 1, 6, 8]))
    c["jobs"] = draw(st.sampled_from([1, 1, 1, 2]))
    c["again"] = draw(st.integers(0, 4)) == 0
    c["verbose"] = 0
    return c


def base_learner(c, P):
    if c["base"] == "oneslack":
        return learners()["oneslack"](
            P.model, C=c["C"], tol=c["tol"], inactive_window=c["window"],
            inference_cache=c["cache"], check_constraints=c["check"],
            n_jobs=c["jobs"], max_iter=3000, verbose=c["verbose"])
    return learners()["nslack"](
        P.model, C=c["C"], tol=-10, inactive_window=c["window"],
        batch_size=c["bs"], check_constraints=c["check"], n_jobs=c["jobs"],
        max_iter=300, verbose=c["verbose"])


class Outer(object):
    def __init__(self, c):
        self.c, self.w, self.its, self.full = c, [], [], []

    def __call__(self, learner, iteration):
        self.its.append(iteration)
        self.w.append(np.array(learner.w, dtype=float))
        b = learner.base_ssvm
        self.full.append(len(b.objective_curve_))


def hidden(P, hs, w, tol):
    """Whether a constraint without loss is the most violated of a sample."""
    for i, k in enumerate(hs):
        v = P.L[i] - (P.phi[i][k] - P.phi[i]) @ w
        if not (v > tol).any():
            continue
        top = v > v.max() - tol
        if (P.L[i][top] == 0).any():
            return True
    return False


def judge_cccp(c, P, log, H0):
    check(log.its == list(range(len(log.its))), "logged iterations %s",
          log.its)
    T = len(log.w)
    check(1 <= T <= c["iters"], "%d iterations of at most %d", T, c["iters"])
    hs = [P.idx(i, h, "initial completion") for i, h in enumerate(H0)]
    tie = False
    changed = 0
    lossy = c["base"] == "nslack"
    for t, w in enumerate(log.w):
        if t:
            new = [P.complete(i, log.w[t - 1]) for i in range(P.n)]
            tie = any(v for _, v in new)
            if not tie:
                check([k for k, _ in new] != hs, "iteration %d runs although "
                      "the completion didn't change", t)
            hs = [k for k, _ in new]
            changed += 1
        big = (1 + P.objective(w))
        gap = 2e-4 * big + 2e-5 * c["C"] * P.n
        gap += 0 if lossy else c["C"] * P.n * c["tol"]
        if lossy and hidden(P, hs, w, 2e-5 * big):
            note(None, "hidden constraint")
            return changed, True
        if not lossy and log.full[t] >= 3000:
            return changed, True
        if not tie:
            Fs, Ls = P.convex(hs, lossy)
            p, d, _ = ref.qp_risk_min(Fs, Ls, c["C"])
            r = 0.5 * float(w @ w) + c["C"] * sum(
                max(0.0, float((l - F @ w).max())) for F, l in zip(Fs, Ls))
            check(r <= p + gap, "iteration %d: weights of risk %r on the "
                  "completed problem, its optimum is %r (tolerance %r)", t,
                  r, p, gap)
        if t:
            a, b = P.objective(log.w[t - 1]), P.objective(w)
            check(b <= a + gap, "iteration %d raises the latent objective "
                  "from %r to %r", t, a, b)
    if T < c["iters"]:
        new = [P.complete(i, log.w[-1]) for i in range(P.n)]
        if not tie and not any(v for _, v in new):
            check([k for k, _ in new] == hs, "stopped after %d of %d "
                  "iterations although the completion still changes", T,
                  c["iters"])
    return changed, False


def fn(c):
    P = LatProgram(c)
    if not P.covered():
        note(False, "labels missing")
        return
    base = base_learner(c, P)
    log = Outer(c)
    lr = learners()["latent"](base, latent_iter=c["iters"], logger=log)
    if not fit(lr, P.X, P.Y, H_init=P.H):
        return
    changed, skipped = judge_cccp(c, P, log, P.H)
    if c["again"]:
        log = lr.logger = Outer(c)
        if not fit(lr, P.X, P.Y, H_init=P.H):
            return
        judge_cccp(c, P, log, P.H)
    w = log.w[-1]
    check(np.array_equal(lr.w, w) and np.array_equal(base.w, w),
          "final weights %s, those of the last iteration %s", lr.w, w)
    check(lr.C == c["C"] == base.C and lr.n_jobs == base.n_jobs and
          lr.model is base.model, "delegated attributes differ")
    check_predict(P, lr, w)
    note(changed > 0 and not skipped, base=c["base"],
         kind=c["D"][0]["kind"], outer=len(log.w), C=c["C"])


def check_predict(P, lr, w):
    pl = lr.predict_latent(P.X)
    py = lr.predict(P.X)
    lost = total = 0.0
    for i, d in enumerate(P.D):
        k = P.idx(i, pl[i], "predict_latent")
        s = P.phi[i] @ w
        check(s[k] >= s.max() - 1e-7 * (1 + np.abs(s).max()),
              "predict_latent(sample %d): score %r, the best is %r", i, s[k],
              s.max())
        lab = zoo.label_y(d, P.labs[i][k])
        check(np.array_equal(np.asarray(py[i]), lab), "predict gives %s, the "
              "labels of predict_latent are %s", py[i], lab)
        lost += P.L[i][k]
        total += zoo.max_loss_ref(d, d["y"])
    sc = float(lr.score(P.X, P.Y))
    check(close(sc, 1 - lost / total), "score %r, expected %r", sc,
          1 - lost / total)


# ------------------------------------------------------------- one state each
@st.composite
def one_case(draw):
    c = draw(case())
    kind = draw(st.sampled_from(["latgraph", "latgrid", "latdgrid"]))
    # same geometry, one state per label
    plain = {"latgraph": "graph", "latgrid": "grid", "latdgrid": "dgrid"}
    D = zoo.draw_dataset(draw, plain[kind], 1, 4, cap=60, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES,
                         graph_kinds=gen.FOREST_KINDS, min_states=2, cw=False)
    if kind == "latgraph":
        for d in D:
            d["directed"], d["cw"] = False, None
            d["w"] = np.zeros(zoo.wsize(d))
    left = list(range(D[0]["S"]))
    for d in D:
        d["y"] = np.array(d["y"])
        for i in range(len(d["y"])):
            if left:
                d["y"][i] = left.pop()
    c["D"], c["plain"], c["lkind"] = D, plain[kind], kind
    c["given"] = draw(st.booleans())
    return c


def f_one(c):
    from pystruct import models as M
    D = c["D"]
    X, Y = zoo.get_XY(D)
    seen = set(int(v) for y in Y for v in np.ravel(y))
    if len(seen) != D[0]["S"] or seen != set(range(D[0]["S"])):
        note(False, "labels missing")
        return
    if c["lkind"] != "latgraph" and len(set(x.shape for x in X)) > 1:
        c["given"] = True            # k-means needs one grid shape
    P = LatPlain(c)
    d = D[0]
    if c["lkind"] == "latgraph":
        m = M.LatentGraphCRF(n_states_per_label=1,
                             inference_method="max-product")
    elif c["lkind"] == "latgrid":
        m = M.LatentGridCRF(n_states_per_label=1, neighborhood=d["nbh"],
                            inference_method="max-product")
    else:
        m = M.LatentDirectionalGridCRF(n_states_per_label=1,
                                       neighborhood=d["nbh"],
                                       inference_method="max-product")
    P.model = m
    base = base_learner(c, P)
    log = Outer(c)
    lr = learners()["latent"](base, latent_iter=c["iters"], logger=log)
    if not c["given"] and c["lkind"] != "latgraph":
        X, Y = np.array(X), np.array(Y)
    if not fit(lr, X, Y, **(dict(H_init=[y.copy() for y in Y])
                            if c["given"] else {})):
        return
    check(log.its == [0], "outer iterations %s although the completion is "
          "the labelling itself", log.its)
    for y, h in zip(Y, lr.H_init_):
        check(np.array_equal(y, h), "initial completion %s of labels %s with "
              "one state per label", h, y)
    up, lo = P.opt()
    w = np.asarray(lr.w, dtype=float)
    r = P.risk(w)
    gap = 2e-4 * (1 + up) + 2e-5 * c["C"] * P.n
    gap += c["C"] * P.n * c["tol"] if c["base"] == "oneslack" else 0
    if log.full[-1] < 3000:
        check(r <= up + gap, "latent training with one state per label: risk "
              "%r, the SVM's optimum is %r", r, up)
    for a, b in zip(lr.predict(X), lr.predict_latent(X)):
        check(np.array_equal(a, b), "labels %s of states %s", a, b)
    note(float(np.abs(w).max(initial=0)) > 1e-6, kind=c["lkind"],
         base=c["base"], init="given" if c["given"] else "kmeans")


def LatPlain(c):
    from .learn import Program
    return Program(dict(c, exact=False))


# ----------------------------------------------------------------- subgradient
@st.composite
def sub_case(draw, kinds=KINDS):
    c = draw_latent(draw, kinds, n_max=5)
    n = len(c["D"])
    c["momentum"] = draw(st.sampled_from([0.0, 0.5, 0.9]))
    rate = draw(st.sampled_from(["auto", 0.1, 0.01, 1.0]))
    c["decay"] = draw(st.sampled_from([1, 0, 0.5, 2]))
    c["t0"] = draw(st.sampled_from([10, 1, 3]))
    if rate == "auto" and c["decay"] == 0:
        rate = 0.1
    if rate != "auto":
        rate = min(rate, 0.5 * c["C"] * n)
    c["rate"] = rate
    c["averaging"] = draw(st.sampled_from([None, "linear", "squared"]))
    c["mode"] = draw(st.sampled_from(["seq", "jobs"]))
    c["iters"] = draw(st.integers(1, 10))
    c["brk"] = draw(st.booleans())
    c["start"] = zoo.project_w(c["D"][0], gen.arr(
        draw, zoo.wsize(c["D"][0]), "small"))
    c["random"] = draw(st.integers(0, 5)) == 0
    c["warm"] = [draw(st.integers(1, 5))
                 for _ in range(draw(st.integers(0, 1)))]
    return c


class LatentRecursion(object):
    def __init__(self, c, P, w):
        self.c, self.P = c, P
        self.w, self.out = np.array(w), np.array(w)
        self.t = self.steps = 0
        self.tie = False

    def constraint(self, i, w):
        P, d = self.P, self.P.D[i]
        k, tie = P.complete(i, w)
        h = zoo.to_model(d, P.labs[i][k])
        y_hat = P.other.loss_augmented_inference(P.X[i], h, w, relaxed=True)
        j = P.idx(i, y_hat, "loss_augmented_inference")
        s = P.phi[i] @ w + P.L[i]
        far = np.abs(P.phi[i] - P.phi[i][j]).max(1) > 0
        if (s[far] > s[j] - TIE * (1 + np.abs(s).max())).any():
            tie = True
        F = P.phi[i][k] - P.phi[i][j]
        v = P.L[i][j] - float(F @ w)
        if 0 < abs(v) < TIE * (1 + np.abs(s).max()):
            tie = True
        self.tie |= tie
        return F, P.L[i][j], max(0.0, v)

    def step(self, g):
        c, n = self.c, self.P.n
        grad = g - self.w / (c["C"] * n)
        m = c["momentum"]
        self.g = (1 - m) * grad + m * self.g
        rate = c["C"] * n if c["rate"] == "auto" else c["rate"]
        if c["decay"] != 0:
            rate = rate / (self.t + c["t0"]) ** c["decay"]
        self.w = self.w + rate * self.g
        t = self.t
        rho = 1.0
        if c["averaging"] == "linear":
            rho = 2.0 / (t + 2.0)
        elif c["averaging"] == "squared":
            rho = 6.0 * (t + 1) / ((t + 2) * (2 * t + 3))
        self.out = (1 - rho) * self.out + rho * self.w
        if rho == 1.0:
            self.out = self.w.copy()
        self.t += 1
        self.steps += 1

    def epoch(self):
        P, total, viol = self.P, 0.0, False
        n = P.n
        batches = [[i] for i in range(n)] if self.c["mode"] == "seq" else \
            even_slices(n, -(-n // 2))
        for b in batches:
            g = 0.0 * self.w
            for i in b:
                F, L, s = self.constraint(i, self.w)
                g = g + F
                total += s
                viol |= s > 0
            self.step(g / len(b))
        return viol, total

    def run(self, iters):
        """(weights, objective) after every completed iteration."""
        self.g = 0.0 * self.w
        hist = []
        for it in range(iters):
            viol, total = self.epoch()
            if not viol and self.c["brk"]:
                break
            hist.append((self.out.copy(), self.c["C"] * total
                         + 0.5 * float(self.out @ self.out)))
        return hist


def judge_sub(c, P, R, lr, rec, iters, what, before=0):
    hist = R.run(iters)
    if len(rec.w) != len(hist):
        if R.tie:
            raise NearTie()
        check(False, "%s: %d iterations, the recursion makes %d", what,
              len(rec.w), len(hist))
    for i, (a, (b, o)) in enumerate(zip(rec.w, hist)):
        compare(R, "%s, iteration %d" % (what, i), a, b)
    compare(R, what, np.asarray(lr.w), R.out)
    compare(R, what + " (final log)", rec.final, R.out)
    obj = [float(v) for v in lr.objective_curve_][before:]
    check(len(obj) == len(hist) + 1, "%s: %d objective values for %d "
          "iterations", what, len(obj), len(hist))
    for i, (v, (b, o)) in enumerate(zip(obj, hist)):
        if not close(v, o, o, 1e-7):
            if R.tie:
                raise NearTie()
            check(False, "%s, iteration %d: objective %r, expected %r",
                  what, i, v, o)
    f = P.objective(np.asarray(lr.w, dtype=float))
    check(close(obj[-1], f, f, 1e-7), "%s: final objective %r, the latent "
          "objective of the weights is %r", what, obj[-1], f)


def f_sub(c):
    P = LatProgram(c)
    rec = Rec()
    lr = learners()["sublatent"](
        P.model, max_iter=c["iters"], C=c["C"], momentum=c["momentum"],
        learning_rate=c["rate"], decay_exponent=c["decay"],
        decay_t0=c["t0"], break_on_no_constraints=c["brk"],
        averaging=c["averaging"], n_jobs=2 if c["mode"] == "jobs" else 1,
        logger=rec)
    w0 = c["start"]
    if c["random"]:
        # standard normal initial weights
        state = np.random.get_state()
        np.random.seed(3)
        w0 = np.random.normal(0, 1, size=len(w0))
        if not np.allclose(zoo.project_w(c["D"][0], w0), w0):
            # not weights of a symmetric edge potential
            np.random.set_state(state)
            note(False, "random weights outside the model")
            return
        np.random.seed(3)
        try:
            fit(lr, P.X, P.Y, initialize=False)
        finally:
            np.random.set_state(state)
    else:
        lr.w = np.array(w0)
        fit(lr, P.X, P.Y, initialize=False)
    R = LatentRecursion(c, P, w0)
    try:
        judge_sub(c, P, R, lr, rec, c["iters"], "fit")
        for it in c["warm"]:
            before = len(lr.objective_curve_)
            lr.max_iter = it
            rec = lr.logger = Rec()
            R.w = R.out.copy()
            fit(lr, P.X, P.Y, warm_start=True, initialize=False)
            judge_sub(c, P, R, lr, rec, it, "warm start", before)
    except NearTie:
        note(False, "near tie")
        return
    check_predict(P, lr, np.asarray(lr.w, dtype=float))
    note(R.steps >= 3 and float(np.abs(lr.w).max(initial=0)) > 1e-9,
         mode=c["mode"], avg=c["averaging"], kind=c["D"][0]["kind"],
         warm=len(c["warm"]))


LEGS = [
    Leg("cccp", case(), fn, quick=1000, shards=4,
        rule="the completion changed at least once, every iteration judged"),
    Leg("onestate", one_case(), f_one, quick=250, shards=2,
        rule="non-zero weights"),
    Leg("subgradient", sub_case(), f_sub, quick=900, shards=3,
        rule="three or more steps, weights not zero"),
]
