"""C33: models a user wrote work with every learner."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check, close
from . import c16, c17, c18, c19, c20, c21, c32
from .learn import fit, learners, quiet

ASSUMPTIONS = [
    "the models list their few labels; labels are numbers, strings, sets or "
    "arrays; the loss is a table or Hamming's (StructuredModel's own)",
    "each learner is judged by the same oracle as in its own check (C16-C21),"
    " whose assumptions apply"]
OWN = ["own"]


# -------------------------------------------------- what the base class gives
@st.composite
def base_case(draw):
    D = zoo.draw_dataset(draw, "own", 1, 5)
    D[0]["augments"] = draw(st.integers(0, 3)) > 0
    name = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                 "frankwolfe", "perceptron"]))
    return dict(D=D, name=name, jobs=draw(st.sampled_from([1, 2])),
                pick=gen.ints(draw, len(D), 6),
                constraints=draw(st.booleans()), C=draw(st.sampled_from(
                    [1.0, 0.1])))


def f_base(c):
    """Batch methods, prediction and score of the base classes."""
    D = c["D"]
    d0 = D[0]
    m = zoo.make_model(d0)
    X, Y = zoo.get_XY(D)
    w = np.array(d0["w"], dtype=float)
    hats = [[int(k) % d0["S"]] for k in c["pick"]]
    Yh = [zoo.to_model(d, k) for d, k in zip(D, hats)]
    g = np.asarray(m.batch_joint_feature(X, Yh))
    want = np.sum([np.asarray(d["x"], dtype=float)[k[0]]
                   for d, k in zip(D, hats)], axis=0)
    check(np.allclose(g, want, rtol=1e-9, atol=1e-9), "batch_joint_feature "
          "is %s, the sum is %s", g, want)
    want = [zoo.loss_ref(d, d["y"], k) for d, k in zip(D, hats)]
    got = [float(v) for v in m.batch_loss(Y, Yh)]
    check(got == want, "batch_loss is %s, expected %s", got, want)
    best = []
    for d in D:
        s = zoo.full_potentials(d, w)[0][0]
        best.append(s)

    def score_ok(Yp, what, aug=None):
        check(len(Yp) == len(D), "%s: %d answers", what, len(Yp))
        for d, s, y in zip(D, best, Yp):
            if aug is not None:
                s = s + d["cost"][d["y"][0]]
            k = zoo.from_model(d, y, what)[0]
            check(s[k] >= s.max() - 1e-9 * (1 + np.abs(s).max()), "%s: a "
                  "label of score %r, the best has %r", what, s[k], s.max())
    score_ok(m.batch_inference(X, w), "batch_inference")
    if d0["augments"]:
        score_ok(m.batch_loss_augmented_inference(X, Y, w),
                 "batch_loss_augmented_inference", True)
    else:
        with quiet():
            score_ok(m.batch_loss_augmented_inference(X, Y, w),
                     "batch_loss_augmented_inference of a model without")
    import joblib
    kw = {} if c["name"] == "perceptron" else dict(C=c["C"])
    lr = learners()[c["name"]](m, n_jobs=c["jobs"] if c["name"]
                               != "frankwolfe" else 1, **kw)
    lr.w = w
    with joblib.parallel_backend("threading"), quiet():
        P = lr.predict(X)
        score_ok(P, "predict")
        if c["constraints"]:
            score_ok(lr.predict(X, constraints=[None] * len(X)),
                     "predict with constraints")
        sc = float(lr.score(X, Y))
    lost = sum(zoo.loss_ref(d, d["y"], zoo.from_model(d, y, "predict"))
               for d, y in zip(D, P))
    total = sum(zoo.max_loss_ref(d, d["y"]) for d in D)
    check(close(sc, 1 - lost / total), "score %r, expected %r", sc,
          1 - lost / total)
    note(len(D) > 1 and np.abs(w).max() > 0, form=d0["form"],
         learner=c["name"], jobs=c["jobs"])


LEGS = [
    Leg("base", base_case(), f_base, quick=500,
        rule="several samples, non-zero weights"),
    Leg("nslack", c16.case(OWN), c16.fn, quick=250, shards=2,
        rule="non-zero weights, constraints stored"),
    Leg("nslack-given", c16.given_case(OWN), c16.f_given, quick=120,
        rule="some constraints given"),
    Leg("oneslack", c17.case(OWN), c17.fn, quick=200, shards=2,
        rule="non-zero weights, several constraints"),
    Leg("frankwolfe", c18.case(OWN), c18.fn, quick=250,
        rule="non-zero optimum, more than one iteration"),
    Leg("subgradient", c19.case(True, OWN), c19.fn, quick=400,
        rule="three or more steps, weights not zero"),
    Leg("perceptron", c20.case(OWN), c20.fn, quick=400,
        rule="two or more updates and epochs, weights not zero"),
    Leg("separable", c20.sep_case(OWN), c20.f_sep, quick=400,
        rule="separable with a margin and at least one epoch with a loss"),
    Leg("latent", c21.case(["ownlat"]), c21.fn, quick=250, shards=2,
        rule="the completion changed at least once, every iteration judged"),
    Leg("latent-subgradient", c21.sub_case(["ownlat"]), c21.f_sub, quick=300,
        rule="three or more steps, weights not zero"),
    Leg("watch", c32.case(OWN, ["ownlat"]), c32.fn, quick=200,
        rule="non-zero weights, something watched the run")]
RULE = "see each leg"
