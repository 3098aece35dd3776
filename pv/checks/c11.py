import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c14 import f_predict, pcase
from .infer import BNB, BNBP, judge
from .learn import fit, learners

RULE = ("cases: learner class, model, weights, several samples; non-trivial: "
        ">= 2 samples and predictions that are neither all right nor the "
        "first state everywhere")
ASSUMPTIONS = ["predictions compared by score (ties), exact inference: "
               "max-product on forests, AD3 with branch and bound",
               "n_jobs=2 runs under joblib's threading backend"]
GEN = ["nslack", "oneslack", "subgradient", "frankwolfe", "perceptron"]
LAT = ["sublatent", "latent_n", "latent_o", "latent_s"]
PLAIN_KINDS = zoo.PAIR + zoo.FLAT


def make_learner(name, model, n_jobs=1):
    L = learners()
    if name.startswith("latent_"):
        base = L[dict(n="nslack", o="oneslack", s="subgradient")[name[-1]]](
            model, n_jobs=n_jobs)
        return L["latent"](base)
    return L[name](model, n_jobs=n_jobs)


@st.composite
def case(draw, kinds, names, mp):
    kind = draw(st.sampled_from(kinds))
    prof = gen.PLAIN + (["neg", "pos"] if mp or kind not in (
        "latnode", "eflatnode") else [])
    if kind == "typed":
        mp = False
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=250, project=True,
                         profs=prof, graph_kinds=gen.FOREST_KINDS if mp
                         else None)
    return dict(D=D, learner=draw(st.sampled_from(names)), mp=mp,
                n_jobs=2 if draw(st.integers(0, 7)) == 0 else 1)


def fn(c):
    import joblib
    D = c["D"]
    kind = D[0]["kind"]
    method = None if kind in zoo.FLAT else \
        ("max-product" if c["mp"] else BNB)
    if kind == "typed" and method == "max-product":
        method = BNB
    model = zoo.make_model(D[0], method)
    solver = method[0] if isinstance(method, tuple) else None
    lr = make_learner(c["learner"], model, c["n_jobs"])
    X, Y = zoo.get_XY(D)
    lr.w = np.array(D[0]["w"], dtype=float)
    latent = kind in zoo.LATENT
    Yo = [zoo.label_y(d, d["y"]) for d in D] if latent else Y
    with joblib.parallel_backend("threading"):
        pred = lr.predict(X)
        if latent:
            hid = lr.predict_latent(X)
            sc = lr.score(X, Yo)
        else:
            hid = pred
            sc = lr.score(X, Y)
    check(len(pred) == len(D) and len(hid) == len(D), "%d predictions for %d "
          "samples", len(pred), len(D))
    rtol = (1e-9 if solver is None else 1e-6) * \
        (200. if kind in ("latnode", "eflatnode") else 1.)
    loss = mx = 0.0
    fresh = zoo.make_model(D[0], method)
    exact = True
    for i, d in enumerate(D):
        y, s, best = judge(d, zoo.problem(d, D[0]["w"]), hid[i],
                           "prediction %d" % i, rtol, solver=solver)
        if latent:
            lab = zoo.label_y(d, y)
            check(np.shape(pred[i]) == lab.shape
                  and np.array_equal(pred[i], lab),
                  "predicted labels %s of latent states %s, expected %s",
                  np.asarray(pred[i]).tolist(), np.asarray(hid[i]).tolist(),
                  lab.tolist())
        one = fresh.inference(X[i], np.array(D[0]["w"], dtype=float))
        y1 = zoo.from_model(d, one, "inference")
        exact = exact and np.array_equal(y1, y)
        loss += zoo.loss_ref(d, d["y"], y)
        mx += zoo.max_loss_ref(d, d["y"])
    if mx > 0:
        want = 1.0 - loss / mx
        if exact:
            check(close(float(sc), want, 1.0), "score %r, expected %r (total "
                  "loss %r of %r)", float(sc), want, loss, mx)
        check(-1e-9 <= sc <= 1 + 1e-9, "score %r outside [0, 1]", float(sc))
    note(len(D) > 1 and 0 < loss < mx, kind=kind, learner=c["learner"],
         n_jobs=c["n_jobs"], mp=c["mp"])


# ------------------------------------------------------------- training curve
@st.composite
def curve_case(draw):
    name = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                 "fw_batch", "fw_bc", "sublatent"]))
    kind = draw(st.sampled_from(["latgraph", "latnode"] if name == "sublatent"
                                else ["chain", "graph", "multiclass",
                                      "multilabel"]))
    D = zoo.draw_dataset(draw, kind, 2, 4, cap=60, max_nodes=4,
                         project=True, profs=["tie", "unit", "small"],
                         graph_kinds=gen.FOREST_KINDS, min_states=2)
    return dict(D=D, learner=name, every=draw(st.integers(2, 4)),
                iters=draw(st.integers(1, 9)),
                C=draw(st.sampled_from([0.1, 1.0, 10.0])))


class Rec(object):
    def __init__(self):
        self.w = {}

    def __call__(self, learner, iteration):
        self.w[iteration] = np.array(learner.w)


def train(c, every):
    D = c["D"]
    L = learners()
    model = zoo.make_model(D[0], None if D[0]["kind"] in zoo.FLAT else
                           "max-product")
    rec = Rec()
    kw = dict(max_iter=c["iters"], C=c["C"], show_loss_every=every,
              logger=rec)
    n = c["learner"]
    if n == "nslack":
        lr = L["nslack"](model, tol=1e-6, **kw)
    elif n == "oneslack":
        lr = L["oneslack"](model, tol=1e-6, **kw)
    elif n == "subgradient":
        lr = L["subgradient"](model, break_on_no_constraints=False,
                              learning_rate=0.1, **kw)
    elif n.startswith("fw"):
        lr = L["frankwolfe"](model, batch_mode=n == "fw_batch", tol=-1,
                             random_state=0, **kw)
    else:
        lr = L["sublatent"](model, break_on_no_constraints=False,
                            learning_rate=0.1, **kw)
        lr.w = np.array(D[0]["w"], dtype=float)
    X, Y = zoo.get_XY(D)
    if D[0]["kind"] in zoo.LATENT:
        Y = [zoo.label_y(d, d["y"]) for d in D]
    ok = fit(lr, X, Y, initialize=False)
    return lr, rec, X, Y, ok


def f_curve(c):
    if not any(zoo.loss_ref(d, d["y"], y) > 0 for d in c["D"]
               for y in ref.all_labelings([len(a) for a in zoo.allowed(d)])):
        return
    D = c["D"]
    lr, rec, X, Y, ok = train(c, 1)
    if not ok:
        return
    full = list(lr.loss_curve_) if hasattr(lr, "loss_curve_") else []
    lr2, rec2, _, _, _ = train(c, c["every"])
    part = list(lr2.loss_curve_) if hasattr(lr2, "loss_curve_") else []
    check(np.allclose(lr.w, lr2.w, rtol=1e-9, atol=1e-12),
          "recording the training loss changes the weights")
    check(part == full[::c["every"]], "show_loss_every=%d records %s, every "
          "iteration %s", c["every"], part, full)
    lr3, _, _, _, _ = train(c, 0)
    check(not getattr(lr3, "loss_curve_", []), "a curve although "
          "show_loss_every=0")
    its = sorted(k for k in rec.w if k != "final")
    wfin = np.array(lr.w)

    def loss_at(w):
        lr.w = w
        return 1.0 - float(lr.score(X, Y))
    for k in its:
        # the weights before or after that iteration's update
        cand = [rec.w[k]]
        if k - 1 in rec.w:
            cand.append(rec.w[k - 1])
        if k == 0:
            cand.append(np.zeros(len(wfin)))
        if k < len(full):
            check(any(abs(full[k] - loss_at(w)) <= 1e-9 for w in cand),
                  "loss_curve_[%d] = %r, 1 - score is %s", k, full[k],
                  [loss_at(w) for w in cand])
    lr.w = wfin
    if c["learner"] in ("subgradient", "fw_batch", "fw_bc", "sublatent"):
        check(len(full) == c["iters"], "%d training losses recorded in %d "
              "iterations", len(full), c["iters"])
    note(len(full) > c["every"] and len(set(full)) > 1,
         learner=c["learner"], kind=D[0]["kind"])


LEGS = [
    Leg("predict_exact", case(PLAIN_KINDS, GEN, False), fn, quick=600,
        rule=">= 2 samples, some but not all labels right", shards=2),
    Leg("predict_forest", case([k for k in PLAIN_KINDS if k != "typed"],
                               GEN, True), fn, quick=800,
        rule=">= 2 samples, some but not all labels right", shards=2),
    Leg("predict_latent", case(zoo.LATENT, LAT, False), fn, quick=500,
        rule=">= 2 samples, some but not all labels right", shards=2),
    Leg("predict_latent_forest", case(zoo.LATENT, LAT, True), fn, quick=600,
        rule=">= 2 samples, some but not all labels right", shards=2),
    Leg("constraints", pcase(), f_predict, quick=300,
        rule="at least one sample whose constraints change its labelling"),
    Leg("training_curve", curve_case(), f_curve, quick=1000, shards=3,
        rule="the curve has several values and is longer than the interval"),
]
