"""C30: the downhill simplex learner minimises the unconstrained primal."""
import numpy as np
from hypothesis import strategies as st

from .. import ref, zoo
from ..core import Leg, note
from ..zoo import check
from .learn import Program, draw_train, quiet, risk

ASSUMPTIONS = [
    "its objective is |w|^2 / (2 C) + mean slack (as in the code; the other "
    "learners use the sum of slacks)",
    "with at most two weights the simplex search is reliable to 0.5 % "
    "(measured 0.02 %); with more it can stall, so only that it ends no "
    "worse than where it starts is judged"]


@st.composite
def case(draw):
    return draw_train(draw, draw(st.sampled_from(
        [["binary"], ["binary"], ["multiclass"], ["multiclass"],
         ["graph", "chain", "edge", "multilabel"]])), n_max=4, cap=16)


def fn(c):
    from pystruct.learners import PrimalDSStructuredSVM
    P = Program(c)
    d = P.Fs[0].shape[1]
    if d > 6:
        note(False, "many weights")
        return
    lr = PrimalDSStructuredSVM(P.model, C=c["C"])
    with quiet():
        r = lr.fit(P.X, P.Y)
    check(r is lr, "fit returned %r", type(r))
    w = np.asarray(lr.w, dtype=float)
    check(w.shape == (d,) and np.isfinite(w).all(), "weights %s", w)
    s = c["C"] / P.n
    f = lambda v: risk(P.Fs, P.Ls, s, np.asarray(v, float))
    got = f(w)
    for v in (np.full(d, 1e-5), np.full(d, 1 + 1e-5)):
        check(got <= f(v) + 1e-9 * (1 + f(v)), "objective %r at %s, %r at the "
              "start %s", got, w.tolist(), f(v), v.tolist())
    if d <= 2:
        up, _, _ = ref.qp_risk_min(P.Fs, P.Ls, s)
        check(got <= up + 5e-3 * (up + s * P.n * 1e-2), "objective %r at %s, "
              "the minimum is %r", got, w.tolist(), up)
    with quiet():
        for x, y in zip(P.X, lr.predict(P.X)):
            want = P.model.inference(x, w)
            check(np.array_equal(np.asarray(y), np.asarray(want)),
                  "predicts %s, the model %s", y, want)
        m = [(float(P.model.loss(y, p)), float(P.model.max_loss(y)))
             for y, p in zip(P.Y, lr.predict(P.X))]
        want = 1. - sum(a for a, _ in m) / sum(b for _, b in m)
        check(np.isclose(lr.score(P.X, P.Y), want), "score %r, expected %r",
              lr.score(P.X, P.Y), want)
    note(P.nontrivial() and d <= 2, d=d, kind=c["D"][0]["kind"])


LEGS = [Leg("simplex", case(), fn, quick=600, shards=4,
            rule="at most two weights, not all joint features equal")]
RULE = "see each leg"
