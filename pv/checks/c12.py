import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, digest, note
from ..zoo import check, close
from .infer import BNB, judge

RULE = ("cases: model, class weights, weights, a batch of samples, a second "
        "labelling per sample, a split point; non-trivial: >= 2 samples with "
        "different inputs and a labelling with a loss")
ASSUMPTIONS = ["labellings returned by batch inference are compared by score "
               "(ties); sums to 1e-9 relative"]


@st.composite
def case(draw, kind, mp):
    prof = gen.PLAIN + (["pos"] if mp or kind not in ("latnode", "eflatnode")
                        else [])
    D = zoo.draw_dataset(draw, kind, 1, 5, cap=200, max_nodes=5,
                         project=True, profs=prof,
                         graph_kinds=gen.FOREST_KINDS if mp else None)
    if kind == "multiclass":
        r = draw(st.booleans())
        for d in D:
            d["rescale_C"] = r
            if r and d["cw"] is None:
                d["cw"] = None
    Y2 = []
    for d in D:
        sizes = [len(a) for a in zoo.allowed(d)]
        v = gen.ints(draw, len(sizes), 256)
        Y2.append(np.array([a % b for a, b in zip(v, sizes)], dtype=int))
    return dict(D=D, Y2=Y2, mp=mp, cut=draw(st.integers(0, len(D))),
                isint=draw(st.booleans()))


def fn(c):
    D, Y2 = c["D"], c["Y2"]
    kind = D[0]["kind"]
    flat = kind in zoo.FLAT
    resc = bool(D[0].get("rescale_C"))
    method = None if flat else ("max-product" if c["mp"] else BNB)
    solver = method[0] if isinstance(method, tuple) else None
    model = zoo.make_model(D[0], method)
    w = np.array(D[0]["w"], dtype=float)
    if kind == "multiclass" and c["isint"]:
        for d in D:
            d["x"] = np.round(d["x"]).astype(int)
    X, Y = zoo.get_XY(D)
    H = [zoo.to_model(d, y) for d, y in zip(D, Y2)]
    if flat:
        H = np.array(H)
    rtol = (1e-9 if solver is None else 1e-6) * \
        (200. if kind in ("latnode", "eflatnode") else 1.)

    # joint features
    def jf(x, y, yt):
        return np.asarray(model.joint_feature(x, y, yt) if resc else
                          model.joint_feature(x, y), dtype=float)
    for lab, name in ((Y, "truth"), (H, "other labels")):
        single = [jf(x, y, t) for x, y, t in zip(X, lab, Y)]
        want = np.sum(single, axis=0)
        sc = np.abs(single).sum() + 1
        calls = [lambda a, b: model.batch_joint_feature(X[a:b], lab[a:b],
                                                        Y[a:b])]
        if not resc:
            calls.append(lambda a, b: model.batch_joint_feature(X[a:b],
                                                                lab[a:b]))
        for call in calls:
            got = np.asarray(call(0, len(X)), dtype=float)
            check(got.shape == want.shape and
                  np.abs(got - want).max(initial=0) <= 1e-9 * sc,
                  "batch_joint_feature of %s %s, sum of joint_feature %s",
                  name, got.tolist(), want.tolist())
            k = c["cut"]
            if 0 < k < len(X):
                parts = np.asarray(call(0, k)) + np.asarray(call(k, len(X)))
                check(np.abs(parts - want).max(initial=0) <= 1e-9 * sc,
                      "batch_joint_feature depends on the split")
    # losses
    single = np.array([float(model.loss(y, h)) for y, h in zip(Y, H)])
    got = np.asarray(model.batch_loss(Y, H), dtype=float)
    check(got.shape == single.shape and np.allclose(got, single, rtol=1e-9),
          "batch_loss %s, loss %s", got.tolist(), single.tolist())
    # inference
    got = model.batch_inference(X, w)
    check(len(got) == len(D), "batch_inference: %d results", len(got))
    for d, y, x in zip(D, got, X):
        p = zoo.problem(d, w)
        judge(d, p, y, "batch_inference", rtol, solver=solver)
        judge(d, p, model.inference(x, w), "inference", rtol, solver=solver)
    for kw in ({}, dict(relaxed=True)):
        if kw and solver is not None:
            continue
        got = model.batch_loss_augmented_inference(X, Y, w, **kw)
        check(len(got) == len(D), "%d results", len(got))
        for d, y, x, t in zip(D, got, X, Y):
            if resc:
                # unit margin before rescaling
                p = zoo.augmented(dict(d, cw=None), zoo.problem(d, w),
                                  d["y"])
            else:
                p = zoo.augmented(d, zoo.problem(d, w), d["y"])
            judge(d, p, y, "batch_loss_augmented_inference", rtol,
                  solver=solver)
            judge(d, p, model.loss_augmented_inference(x, t, w, **kw),
                  "loss_augmented_inference", rtol, solver=solver)
    note(len(D) > 1 and float(single.sum()) > 0 and
         len(set(digest(d["x"]) for d in D)) > 1,
         kind=kind, mp=c["mp"], cw=type(D[0].get("cw")).__name__)


# ------------------------------------------------------------------- relaxed
@st.composite
def relaxed_case(draw):
    kind = draw(st.sampled_from(["graph", "chain", "grid", "edge", "dgrid",
                                 "multilabel", "typed", "latgraph"]))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=200, max_nodes=5, project=True,
                         profs=gen.PLAIN, min_states=2,
                         graph_kinds=["cycle", "complete", "general"])
    return dict(D=D, method="ad3" if kind == "typed" else
                draw(st.sampled_from(["lp", "ad3"])),
                cut=draw(st.integers(0, len(D))))


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same(p, q) for p, q in zip(a, b))
    return not isinstance(b, (tuple, list)) and \
        np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-6)


def f_relaxed(c):
    """Relaxed results are those of the samples, and count as such."""
    D, k = c["D"], c["cut"]
    model = zoo.make_model(D[0], c["method"])
    w = np.array(D[0]["w"], dtype=float)
    X, Y = zoo.get_XY(D)
    frac = False
    for name, batch, single in (
            ("batch_inference",
             lambda a, b, **kw: model.batch_inference(X[a:b], w, **kw),
             lambda i, **kw: model.inference(X[i], w, **kw)),
            ("batch_loss_augmented_inference",
             lambda a, b, **kw: model.batch_loss_augmented_inference(
                 X[a:b], Y[a:b], w, **kw),
             lambda i, **kw: model.loss_augmented_inference(
                 X[i], Y[i], w, **kw))):
        for kw in ({}, dict(relaxed=True), dict(relaxed=False)):
            want = [single(i, **kw) for i in range(len(D))]
            got = list(batch(0, len(D), **kw))
            parts = list(batch(0, k, **kw)) + list(batch(k, len(D), **kw))
            for i in range(len(D)):
                check(len(got) == len(parts) == len(D) and
                      same(got[i], want[i]) and same(parts[i], want[i]),
                      "%s(%r) gives %r and in parts %r for sample %d, alone "
                      "%r", name, kw, got[i], parts[i], i, want[i])
            frac |= any(isinstance(y, tuple) for y in want)
            L = [float(model.loss(y, h)) for y, h in zip(Y, want)]
            check(np.allclose(np.asarray(model.batch_loss(Y, want),
                                         dtype=float), L, rtol=1e-9),
                  "batch_loss %r of relaxed results, loss %r",
                  model.batch_loss(Y, want), L)
            F = np.sum([np.asarray(model.joint_feature(x, h))
                        for x, h in zip(X, want)], axis=0)
            check(np.allclose(model.batch_joint_feature(X, want), F,
                              rtol=0, atol=1e-9 * (1 + np.abs(F).max())),
                  "batch_joint_feature of relaxed results isn't the sum")
    note(len(D) > 1 and frac, kind=D[0]["kind"], method=c["method"])


LEGS = [Leg("relaxed", relaxed_case(), f_relaxed, quick=250, shards=2,
            rule="several samples, marginals among the results")]
for k in zoo.CRF_KINDS:
    if k != "typed":
        LEGS.append(Leg("batch_" + k, case(k, True), fn, quick=250,
                        rule="several different samples, a loss"))
    if k in ("graph", "edge", "typed", "multilabel", "latgraph", "eflatnode"):
        LEGS.append(Leg("batch_exact_" + k, case(k, False), fn, quick=120,
                        rule="several different samples, a loss"))
for k in zoo.FLAT:
    LEGS.append(Leg("batch_" + k, case(k, True), fn, quick=1500,
                    rule="several different samples, a loss"))
