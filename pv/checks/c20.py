"""C20: structured perceptron training against an independent
implementation of its documented recursion, and convergence on separable
data."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import (Program, TRAIN_KINDS, draw_train, fit, learners,
                    method_of)

RULE = ("cases: training set, model and perceptron options; non-trivial: at "
        "least two updates, at least two epochs, final weights not zero")
ASSUMPTIONS = [
    "predictions are those of the model's own inference (judged by C04, C06, "
    "C08), so exact ties are broken alike; if weights differ and some "
    "prediction was a near-tie in inexact arithmetic, the run is not judged",
    "averaging from an epoch that is never reached is not judged"]
TIE = 1e-9
KINDS = TRAIN_KINDS + ["dgrid"]


class NearTie(Exception):
    pass


@st.composite
def case(draw, kinds=KINDS):
    c = draw_train(draw, kinds, draw(st.booleans()), n_max=5)
    for d in c["D"]:
        d.pop("rescale_C", None)
    c["batch"] = draw(st.booleans())
    c["decay"] = draw(st.sampled_from([0, 0, 1, -1, -0.5, 0.5, -2]))
    c["t0"] = draw(st.sampled_from([10, 1, 2]))
    c["average"] = draw(st.sampled_from([False, True, 0, 1, 2, 3, -1]))
    c["iters"] = draw(st.integers(1, 8))
    c["jobs"] = draw(st.sampled_from([1, 1, 2]))
    c["verbose"] = draw(st.sampled_from([0, 0, 1]))
    c["again"] = draw(st.booleans())
    return c


def make(c, P, **kw):
    o = dict(max_iter=c["iters"], batch=c["batch"], n_jobs=c["jobs"],
             decay_exponent=c["decay"], decay_t0=c["t0"],
             average=c["average"], verbose=c["verbose"])
    o.update(kw)
    return learners()["perceptron"](P.model, **o)


class Recursion(object):
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.model = zoo.make_model(c["D"][0], method_of(c))
        self.index = [{tuple(l): k for k, l in enumerate(labs.tolist())}
                      for labs in P.labs]
        self.exact = (c["decay"] in (0, 1) and
                      all(p == "tie" for p in c["D"][0]["profiles"]))
        self.tie = False
        self.updates = 0

    def predict(self, i, w):
        """(difference, loss) of the predicted labelling of sample i."""
        P, d = self.P, self.c["D"][i]
        y = self.model.inference(P.X[i], w)
        k = self.index[i][tuple(zoo.from_model(d, y, "prediction"))]
        if w.any() and not self.exact:
            s = -(P.Fs[i] @ w)
            far = np.abs(P.Fs[i] - P.Fs[i][k]).max(axis=1) > 0
            if (s[far] > s[k] - TIE * (1 + np.abs(s).max())).any():
                self.tie = True
        return P.Fs[i][k], float(P.Ls[i][k])

    def run(self):
        c, P = self.c, self.P
        w = np.zeros(P.Fs[0].shape[1])
        avg = c["average"]
        hist, curve = [], []        # hist: (epoch, weights) to be averaged
        total = sum(zoo.max_loss_ref(d, d["y"]) for d in c["D"])
        for e in range(c["iters"]):
            eta = float(e + c["t0"]) ** c["decay"]
            losses = 0.0
            w_start = w
            for i in range(P.n):
                F, L = self.predict(i, w_start if c["batch"] else w)
                losses += L
                if L:
                    w = w + eta * F
                    self.updates += 1
                if not c["batch"]:
                    hist.append((e, w))
            if c["batch"]:
                hist.append((e, w))
            curve.append(losses / total)
            if losses == 0:
                break
        if avg is False:
            return w, curve
        last = len(curve) - 1
        start = 0 if avg is True else last if avg == -1 else int(avg)
        ws = [v for e, v in hist if e >= start]
        return (np.mean(ws, axis=0) if ws else None), curve


def judge(c, P, lr, R):
    w, curve = R.run()
    got = [float(v) for v in lr.loss_curve_]
    sc = 1 + np.abs(w).max(initial=0) if w is not None else 1
    ok = len(got) == len(curve) and \
        all(close(a, b, 1, 1e-9) for a, b in zip(got, curve)) and \
        (w is None or np.abs(np.asarray(lr.w) - w).max(initial=0)
         <= 1e-8 * sc)
    if not ok and R.tie:
        raise NearTie()
    check(len(got) == len(curve), "loss curve %s, the recursion gives %s",
          got, curve)
    check(all(close(a, b, 1, 1e-9) for a, b in zip(got, curve)),
          "loss curve %s, the recursion gives %s", got, curve)
    check(ok, "weights %s, the documented recursion gives %s",
          np.asarray(lr.w).tolist(), None if w is None else w.tolist())
    return w


def fn(c):
    P = Program(c)
    lr = make(c, P)
    R = Recursion(c, P)
    try:
        fit(lr, P.X, P.Y, initialize=False)
        w = judge(c, P, lr, R)
        if c["again"]:
            # the second fit starts from zero again
            R.updates = 0
            fit(lr, P.X, P.Y, initialize=False)
            judge(c, P, lr, R)
    except NearTie:
        note(False, "near tie")
        return
    if w is None:
        note(False, "average never starts")
        return
    note(R.updates >= 2 and len(lr.loss_curve_) >= 2 and
         float(np.abs(w).max(initial=0)) > 1e-9,
         "converged" if lr.loss_curve_[-1] == 0 else "all epochs",
         mode="batch" if c["batch"] else "online", average=c["average"],
         decay=c["decay"], kind=c["D"][0]["kind"])


# ------------------------------------------------------------------ separable
@st.composite
def sep_case(draw, kinds=KINDS):
    c = draw_train(draw, kinds, draw(st.booleans()), n_max=6, n_min=2)
    for d in c["D"]:
        d.pop("rescale_C", None)
    c["batch"] = draw(st.booleans())
    c["jobs"] = 1
    c["verbose"] = 0
    c["decay"], c["t0"] = 0, draw(st.sampled_from([10, 1]))
    c["average"] = False
    return c


def f_sep(c):
    """Labels are the unique best labelling at some weights, so Novikoff's
    bound limits the number of epochs with a mistake."""
    D = c["D"]
    P0 = Program(c)
    w = np.asarray(zoo.project_w(D[0], D[0]["w"]), dtype=float)
    nw = float(np.linalg.norm(w))
    if nw < 1e-6:
        note(False, "zero weights")
        return
    ys = []
    for F, labs in zip(P0.Fs, P0.labs):
        ys.append(labs[int(np.argmax(-(F @ w)))])
    D = [dict(d, y=np.array(y)) for d, y in zip(D, ys)]
    c = dict(c, D=D)
    P = Program(c)
    gam = np.inf
    for F, L in zip(P.Fs, P.Ls):
        o = L > 0
        if o.any():
            gam = min(gam, float((F[o] @ w).min()) / nw)
    if not np.isfinite(gam) or gam <= 1e-6:
        note(False, "no margin")
        return
    bound = (P.R / gam) ** 2 * (P.n if c["batch"] else 1)
    bound = int(np.ceil(bound * (1 + 1e-9)))
    if bound > 1500:
        note(False, "long bound")
        return
    c["iters"] = bound + 1
    lr = make(c, P)
    fit(lr, P.X, P.Y, initialize=False)
    check(lr.loss_curve_[-1] == 0,
          "separable with margin %r and radius %r: still a loss of %r after "
          "%d epochs", gam, P.R, lr.loss_curve_[-1], len(lr.loss_curve_))
    check(all(v > 0 for v in lr.loss_curve_[:-1]), "loss curve %s",
          lr.loss_curve_)
    check(lr.score(P.X, P.Y) == 1.0, "training score %r after an epoch "
          "without loss", lr.score(P.X, P.Y))
    note(len(lr.loss_curve_) >= 2, kind=D[0]["kind"],
         epochs=min(len(lr.loss_curve_), 10))


LEGS = [
    Leg("recursion", case(), fn, quick=1600, shards=4,
        rule="two or more updates and epochs, weights not zero"),
    Leg("separable", sep_case(), f_sep, quick=2000, shards=2,
        rule="separable with a margin and at least one epoch with a loss"),
]
