import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close

RULE = ("cases: feature vector, weights, label, class weights, rescale_C; "
        "non-trivial: non-zero scores and, for multi-class, >= 2 classes")
ASSUMPTIONS = ["float64, relative tolerance 1e-9; near-ties within it may be "
               "broken either way"]


@st.composite
def binary(draw):
    F = draw(st.integers(1, 5))
    c = dict(F=F, p=draw(gen.profiles()))
    c["x"] = gen.arr(draw, F, c["p"])
    if draw(st.booleans()) and c["p"] in ("tie", "int"):
        c["x"] = c["x"].astype(int)
    c["w"] = gen.arr(draw, F, draw(gen.profiles()))
    c["y"] = draw(st.sampled_from([-1, 1]))
    c["margin"] = draw(st.sampled_from([None, 0, 1, -1]))
    return c


def f_binary(c):
    from pystruct.models import BinaryClf
    x, w, y = c["x"], np.array(c["w"]), c["y"]
    if c["margin"] is not None and np.any(x[0] != 0):
        # force w.x to an exactly representable margin on one coordinate
        w = np.zeros(len(x))
        w[0] = c["margin"] / float(x[0])
    m = BinaryClf(n_features=c["F"])
    check(m.size_joint_feature == c["F"], "wrong size")
    sc = 1 + float(np.abs(x) @ np.abs(w))
    score = {}
    for t in (-1, 1):
        jf = np.asarray(m.joint_feature(x.copy(), t))
        check(np.allclose(jf, t * x / 2., rtol=1e-12), "joint feature of %d "
              "is %s", t, jf.tolist())
        score[t] = float(jf @ w)
        for u in (-1, 1):
            check(float(m.loss(np.int64(t), np.int64(u))) == (t != u),
                  "loss(%d, %d) wrong", t, u)
    yi = m.inference(x.copy(), w)
    check(int(yi) in (-1, 1) and np.ndim(yi) == 0, "label %r", yi)
    check(score[int(yi)] >= max(score.values()) - 1e-9 * sc, "inference "
          "returned %r, scores %r", yi, score)
    ya = m.loss_augmented_inference(x.copy(), y, w)
    check(int(ya) in (-1, 1) and np.ndim(ya) == 0, "label %r is no label",
          ya)
    aug = {t: score[t] + (t != y) for t in (-1, 1)}
    check(aug[int(ya)] >= max(aug.values()) - 1e-9 * sc, "loss-augmented "
          "inference returned %r, score+loss %r", ya, aug)
    d = float(np.dot(x, w))
    note(d != 0, "tie" if d == 0 else "margin" if abs(d) == 1 else "generic",
         y=y)


@st.composite
def multi(draw):
    F, S = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    c = dict(F=F, S=S, p=draw(gen.profiles()))
    c["x"] = gen.arr(draw, F, c["p"])
    c["w"] = gen.arr(draw, F * S, draw(gen.profiles()))
    c["y"] = draw(st.integers(0, S - 1))
    c["cw"] = gen.class_weight(draw, S)
    c["rescale_C"] = draw(st.booleans())
    return c


def f_multi(c):
    from pystruct.models import MultiClassClf
    x, w, y, S = c["x"], np.array(c["w"]), c["y"], c["S"]
    cw = np.ones(S) if c["cw"] is None else np.asarray(c["cw"], dtype=float)
    m = MultiClassClf(c["F"], S, class_weight=c["cw"],
                      rescale_C=c["rescale_C"])
    check(m.size_joint_feature == c["F"] * S, "wrong size")
    score = w.reshape(S, -1) @ x
    sc = 1 + np.abs(score).max() + cw.max() + float(
        np.abs(w).reshape(S, -1).max(axis=0) @ np.abs(x))
    for t in range(S):
        jf = np.asarray(m.joint_feature(x.copy(), t, y) if c["rescale_C"]
                        else m.joint_feature(x.copy(), t))
        want = np.zeros((S, c["F"]))
        want[t] = x * (cw[y] if c["rescale_C"] else 1.)
        check(jf.shape == (S * c["F"],) and
              np.allclose(jf, want.ravel(), rtol=1e-12),
              "joint feature of class %d is %s", t, jf.tolist())
    yi, ei = m.inference(x.copy(), w, return_energy=True)
    check(0 <= int(yi) < S, "class %r", yi)
    check(score[int(yi)] >= score.max() - 1e-9 * sc, "inference: %r of %s",
          yi, score.tolist())
    check(close(abs(ei), abs(score.max()), sc), "reported value %r, best "
          "score %r", ei, score.max())
    check(int(m.inference(x.copy(), w)) == int(yi), "return_energy changes "
          "the label")
    l = 1. if c["rescale_C"] else cw[y]
    aug = score + l * (np.arange(S) != y)
    ya, ea = m.loss_augmented_inference(x.copy(), y, w, return_energy=True)
    check(0 <= int(ya) < S, "class %r", ya)
    check(aug[int(ya)] >= aug.max() - 1e-9 * sc, "loss-augmented: %r of %s",
          ya, aug.tolist())
    check(close(abs(ea), abs(aug.max()), sc), "reported value %r, best %r",
          ea, aug.max())
    for t in range(S):
        for u in range(S):
            check(close(float(m.loss(np.int64(t), np.int64(u))),
                        cw[t] * (t != u)), "loss(%d, %d) wrong", t, u)
    # rescale_C: weighting the constraint by the class weight is the same
    # problem as weighting C, sample by sample (margin 1)
    if c["rescale_C"]:
        psi = [np.asarray(m.joint_feature(x, t, y)) for t in range(S)]
        viol = [float(cw[y] * (t != y) - w @ (psi[y] - psi[t]))
                for t in range(S)]
        check(close(viol[int(ya)], max(viol), sc * cw.max(), 1e-8),
              "with rescale_C the constraint of class %r has violation %r, "
              "the most violated one %r", ya, viol[int(ya)], max(viol))
    note(S > 1 and bool(np.any(score != 0)), rescale=c["rescale_C"],
         cw="int" if c["cw"] is not None and
         np.asarray(c["cw"]).dtype.kind == "i" else
         "none" if c["cw"] is None else "float",
         tie=int(np.sum(aug >= aug.max() - 1e-12) > 1))


@st.composite
def batch(draw):
    c = draw(multi())
    n = c["n"] = draw(st.integers(1, 6))
    c["X"] = gen.arr(draw, (n, c["F"]), c["p"])
    c["Y"] = gen.ints(draw, n, c["S"])
    return c


def f_batch(c):
    """The same statements on the vectorised code path."""
    from pystruct.models import BinaryClf, MultiClassClf
    X, Y, S = c["X"], c["Y"], c["S"]
    w = np.array(c["w"])
    cw = np.ones(S) if c["cw"] is None else np.asarray(c["cw"], dtype=float)
    m = MultiClassClf(c["F"], S, class_weight=c["cw"],
                      rescale_C=c["rescale_C"])
    score = X @ w.reshape(S, -1).T
    sc = 1 + cw.max() + float(np.abs(w).max(initial=0) *
                              np.abs(X).sum(axis=1).max())
    yi = np.asarray(m.batch_inference(X.copy(), w))
    ya = np.asarray(m.batch_loss_augmented_inference(X.copy(), Y.copy(), w))
    check(yi.shape == Y.shape and ya.shape == Y.shape, "shapes %r %r",
          yi.shape, ya.shape)
    l = np.ones(len(Y)) if c["rescale_C"] else cw[Y]
    aug = score + l[:, None] * (np.arange(S)[None] != Y[:, None])
    for i in range(len(Y)):
        check(score[i, yi[i]] >= score[i].max() - 1e-9 * sc,
              "batch inference of sample %d: %r", i, yi[i])
        check(aug[i, ya[i]] >= aug[i].max() - 1e-9 * sc,
              "batch loss-augmented inference of sample %d: %r of %s", i,
              ya[i], aug[i].tolist())
    Z = yi
    jf = np.asarray(m.batch_joint_feature(X.copy(), Z, Y) if c["rescale_C"]
                    else m.batch_joint_feature(X.copy(), Z))
    want = np.zeros((S, c["F"]))
    for i in range(len(Y)):
        want[Z[i]] += X[i] * (cw[Y[i]] if c["rescale_C"] else 1.)
    check(np.allclose(jf, want.ravel(), rtol=1e-9, atol=1e-9 * sc),
          "batch joint feature %s, expected %s", jf.tolist(),
          want.ravel().tolist())
    lo = np.asarray(m.batch_loss(Y, Z), dtype=float)
    check(np.allclose(lo, cw[Y] * (Y != Z)), "batch loss %s", lo.tolist())
    # binary
    b = BinaryClf(n_features=c["F"])
    T = 2 * (Y % 2) - 1
    wb = w[:c["F"]]
    d = X @ wb
    yi = np.asarray(b.batch_inference(X.copy(), wb))
    ya = np.asarray(b.batch_loss_augmented_inference(X.copy(), T, wb))
    for i in range(len(Y)):
        check(yi[i] in (-1, 1) and ya[i] in (-1, 1), "labels %s %s",
              yi.tolist(), ya.tolist())
        check(yi[i] * d[i] >= -1e-9 * sc, "binary batch inference")
        s = {t: t * d[i] / 2 + (t != T[i]) for t in (-1, 1)}
        check(s[int(ya[i])] >= max(s.values()) - 1e-9 * sc,
              "binary batch loss-augmented inference: %r of %r", ya[i], s)
    jf = np.asarray(b.batch_joint_feature(X.copy(), T, T))
    check(np.allclose(jf, (X * T[:, None]).sum(axis=0) / 2, rtol=1e-9,
                      atol=1e-9 * sc), "binary batch joint feature")
    check(np.array_equal(np.asarray(b.batch_loss(T, yi), dtype=float),
                         (T != yi).astype(float)), "binary batch loss")
    note(len(Y) > 1 and S > 1, rescale=c["rescale_C"])


LEGS = [
    Leg("binary", binary(), f_binary, quick=3000,
        rule="w.x is not zero"),
    Leg("multiclass", multi(), f_multi, quick=3000, shards=2,
        rule="two or more classes and a non-zero score"),
    Leg("batches", batch(), f_batch, quick=2000, shards=2,
        rule="two or more samples and classes"),
]
