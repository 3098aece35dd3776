import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .infer import BNB, BNBP, SOFT, judge, judge_energy

RULE = ("cases: model instance, weights, true (latent) labelling, class "
        "weights, exact inference method; non-trivial: >= 1 edge with "
        "non-constant scores and the loss changes the optimal score")
ASSUMPTIONS = ["1e-6 relative (AD3), 1e-9 (max-product); enumeration up to "
               "700 labellings, chains up to 60 nodes by dynamic programming",
               "edge-feature weights respect declared (anti)symmetries, as "
               "every learned weight vector does"]


@st.composite
def case(draw, kind, method):
    prof = gen.PROFILES if method == "max-product" else (
        gen.PLAIN if kind in ("latnode", "eflatnode") else SOFT)
    c = zoo.draw_case(draw, kind, cap=300, max_nodes=6, project=True,
                      profs=prof, wprofs=gen.PLAIN if
                      method != "max-product" else prof,
                      graph_kinds=gen.FOREST_KINDS
                      if method == "max-product" else None)
    c["mp"] = method == "max-product"
    if c["mp"] and kind in zoo.GRIDS:
        n = max(c["shape"])
        c["shape"] = [n, 1] if draw(st.booleans()) else [1, n]
        c["n"] = n
        c["x"] = gen.arr(draw, tuple(c["shape"]) + (c["F"],),
                         c["profiles"][0])
        c["y"] = gen.ints(draw, n, c["S"])
    c["plus"] = draw(st.booleans())
    return c


def fn(c):
    method = "max-product" if c["mp"] else BNB
    if not c["mp"] and c["plus"] and c["kind"] in ("edge", "typed", "dgrid",
                                                   "latdgrid", "eflatnode",
                                                   "multilabel"):
        method = BNBP
    if c["kind"] == "typed":
        method = BNBP if c["plus"] else BNB
    model = zoo.make_model(c, method)
    prob = zoo.problem(c)
    aug = zoo.augmented(c, prob, c["y"])
    x, w, h = zoo.get_x(c), np.array(c["w"]), zoo.to_model(c, c["y"])
    rtol = 1e-9 if c["mp"] else 1e-6
    solver = None if c["mp"] else method[0]
    what = "loss_augmented_inference(%s)" % (method,)
    sc = ref.magnitude(aug)
    forb = 1.0 if c["kind"] not in ("latnode", "eflatnode") else 200.0
    for _ in range(2):
        res = model.loss_augmented_inference(x, h, w)
        yh, s, best = judge(c, aug, res, what, rtol * forb, solver=solver)
    res, en = model.loss_augmented_inference(x, h, w, return_energy=True)
    yh, s, best = judge(c, aug, res, what, rtol * forb, solver=solver)
    judge_energy(aug, en, s, what, rtol * forb, solver)
    # the same quantity through the public joint feature and loss
    v = float(np.dot(w, model.joint_feature(x, res))) + float(
        model.loss(h, res))
    check(close(v, s, sc + float(np.abs(w).sum())), "score + loss of the "
          "result is %r by the model's own methods, %r by definition", v, s)
    # an inference of the plain score is not affected
    res, en = model.inference(x, w, return_energy=True)
    yh, s0, best0 = judge(c, prob, res, "inference", rtol * forb,
                          solver=solver)
    judge_energy(prob, en, s0, "inference", rtol * forb, solver)
    note(any(np.ptp(p) > 0 for p in prob[2]) and best > best0 + 1e-9,
         kind=c["kind"], cw=str(type(c.get("cw")).__name__),
         hidden=min(1, c.get("n_hidden", 0)))


@st.composite
def chain(draw):
    S = draw(st.integers(2, 5))
    c = dict(kind="chain", F=draw(st.integers(1, 3)), S=S,
             directed=draw(st.booleans()), cw=gen.class_weight(draw, S),
             n=draw(st.integers(10, 60)))
    p = draw(gen.profiles())
    c["x"] = gen.arr(draw, (c["n"], c["F"]), p)
    c["w"] = gen.arr(draw, zoo.wsize(c), draw(gen.profiles()))
    c["y"] = gen.ints(draw, c["n"], S)
    return c


def long_chain(c):
    model = zoo.make_model(c, "max-product")
    aug = zoo.augmented(c, zoo.problem(c), c["y"])
    best = ref.forest_max(aug)
    res, en = model.loss_augmented_inference(
        zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"]),
        return_energy=True)
    judge(c, aug, res, "loss_augmented_inference", 1e-9, best)
    check(close(-en, best, ref.magnitude(aug)), "energy %r, optimum %r", en,
          best)
    note(any(np.ptp(p) > 0 for p in aug[2]))


@st.composite
def flat(draw):
    return zoo.draw_case(draw, draw(st.sampled_from(zoo.FLAT)))


def f_flat(c):
    model = zoo.make_model(c)
    prob = zoo.problem(c)
    aug = zoo.augmented(c, prob, c["y"])
    res = model.loss_augmented_inference(
        zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"]))
    judge(c, aug, res, "loss_augmented_inference", 1e-9)
    note(c["S"] > 1 and bool(np.any(prob[0][0] != 0)))


LEGS = []
for k in zoo.CRF_KINDS:
    LEGS.append(Leg("exhaustive_" + k, case(k, "ad3"), fn, quick=350,
                    rule="an edge with non-constant scores; loss matters"))
    if k != "typed":
        LEGS.append(Leg("forest_" + k, case(k, "max-product"), fn, quick=350,
                        rule="an edge with non-constant scores; loss "
                        "matters"))
LEGS += [Leg("long_chains", chain(), long_chain, quick=500,
             rule="non-constant pairwise scores"),
         Leg("classifiers", flat(), f_flat, quick=800,
             rule="several classes, non-zero scores")]
