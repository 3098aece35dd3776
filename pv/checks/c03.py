import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .energy import identity_legs
from .infer import SOFT, BNB, BNBP, judge, judge_energy, solver_fails

RULE = ("cases: generated multi-type instances (types, states, features, "
        "edges, empty and None entries, labelling, weights, class weights); "
        "non-trivial per leg, as stated there")
ASSUMPTIONS = ["at most 3 node types, float64, relative tolerance 1e-9 for "
               "energies and 1e-6 for AD3 optima; potentials up to ~1e3"]


@st.composite
def typed(draw, soft=SOFT, **kw):
    return zoo.draw_case(draw, "typed", profs=soft, **kw)


def coding(c):
    """flattenY / unflattenY are inverse; flat codes are the documented
    ones."""
    model = zoo.make_model(c)
    x = zoo.get_x(c)
    ns = np.concatenate([[0], np.cumsum(c["ns"])])
    y = np.asarray(c["y"])
    by = [y[ns[t]:ns[t + 1]] for t in range(c["T"])]
    flat = model.flattenY([b.copy() for b in by])
    want = zoo.to_model(c, y)
    check(np.asarray(flat).shape == want.shape and np.all(flat == want),
          "flattenY gives %s, expected %s", np.asarray(flat).tolist(),
          want.tolist())
    back = model.unflattenY(x, np.array(flat))
    check(len(back) == c["T"], "unflattenY returned %d types", len(back))
    for t in range(c["T"]):
        check(np.array_equal(np.asarray(back[t]), by[t]),
              "unflattenY gives %s for type %d, expected %s",
              np.asarray(back[t]).tolist(), t, by[t].tolist())
    lists = model.flattenY([b.tolist() for b in by])
    check(np.array_equal(lists, want), "flattenY of lists differs")
    bad = np.concatenate([want, want[:1]])
    try:
        model.unflattenY(x, bad)
        raised = False
    except ValueError:
        raised = True
    check(raised, "unflattenY accepted one label too many")
    note(sum(n > 0 for n in c["ns"]) > 1, types=c["T"])


def inference(c):
    prob = zoo.problem(c)
    x, w = zoo.get_x(c), np.array(c["w"])
    aug = zoo.augmented(c, prob, c["y"])
    y = zoo.to_model(c, c["y"])
    n_edges = len(prob[1])
    for m in (BNB, BNBP):
        model = zoo.make_model(c, m)
        res, en = model.inference(x, w, return_energy=True)
        _, s, best = judge(c, prob, res, "inference(%s)" % m[0],
                           solver=m[0])
        judge_energy(prob, en, s, m[0], 1e-6, m[0])
        res, en = model.loss_augmented_inference(x, y, w, return_energy=True)
        yh, s, best = judge(c, aug, res, "loss_augmented_inference(%s)"
                            % m[0], solver=m[0])
        judge_energy(aug, en, s, m[0] + " loss-augmented", 1e-6, m[0])
        l = float(model.loss(y, res))
        check(close(l, zoo.loss_ref(c, c["y"], yh)), "loss is %r, expected "
              "%r", l, zoo.loss_ref(c, c["y"], yh))
    note(n_edges > 0 and sum(n > 0 for n in c["ns"]) > 1, types=c["T"],
         cw=c["cw"] is not None)


def plain(c):
    """Plain ad3 / ad3+ : relaxed and rounded answers."""
    prob = zoo.problem(c)
    x, w = zoo.get_x(c), np.array(c["w"])
    best = ref.brute_max(prob)
    sc = ref.magnitude(prob)
    forest = ref.is_forest(len(prob[0]), prob[1])
    for m in ("ad3", "ad3+"):
        model = zoo.make_model(c, m)
        res, en = model.inference(x, w, relaxed=True, return_energy=True)
        jf = model.joint_feature(x, res)
        s = float(np.dot(w, jf))
        if isinstance(res, tuple):
            check(len(res[0]) == c["T"] and all(
                np.asarray(u).shape == (c["ns"][t], c["Ss"][t])
                for t, u in enumerate(res[0])), "relaxed marginals of %s "
                "have the wrong shapes", m)
            check(-en >= best - 5e-3 * sc, "%s: relaxed energy %r above that "
                  "of the best labelling, %r", m, en, -best)
        else:
            judge(c, prob, res, "relaxed inference(%s)" % m, 1e-4, best)
            check(close(-en, s, sc, 1e-4), "%s: energy %r, score %r", m, en,
                  s)
        hard = model.inference(x, w)
        zoo.from_model(c, hard, "inference(%s)" % m)
        uniq = np.sum(ref.all_scores(prob) > best - 1e-3 * sc) == 1
        if forest and uniq:
            judge(c, prob, hard, "inference(%s) on a forest" % m, 1e-4, best)
    note(len(prob[1]) > 0, types=c["T"])


@st.composite
def single(draw):
    c = zoo.draw_case(draw, "edge", profs=SOFT, min_states=2, max_states=3)
    c["sym"], c["anti"] = [], []
    return c


def single_type(c):
    """One node type: the edge-feature CRF."""
    e = zoo.make_model(c, BNB)
    t = dict(kind="typed", T=1, Ss=[c["S"]], Fs=[c["F"]], ns=[c["n"]],
             nef=np.array([[c["nef"]]]), x=[c["x"]], x_none=[False],
             E=[c["edges"]], EF=[c["ef"]], e_none=[False],
             cw=None if c["cw"] is None else [c["cw"]], w=c["w"], y=c["y"])
    m = zoo.make_model(t, BNB)
    xe, xt = zoo.get_x(c), zoo.get_x(t)
    w = np.array(c["w"])
    y = np.asarray(c["y"])
    check(m.size_joint_feature == e.size_joint_feature,
          "sizes %r and %r", m.size_joint_feature, e.size_joint_feature)
    a, b = e.joint_feature(xe, y), m.joint_feature(xt, y)
    check(np.allclose(a, b, rtol=1e-9, atol=1e-9), "joint features differ: "
          "%s and %s", a.tolist(), b.tolist())
    prob = zoo.problem(c)
    sc = ref.magnitude(prob)
    for p, fs in ((prob, (lambda: e.inference(xe, w, return_energy=True),
                          lambda: m.inference(xt, w, return_energy=True))),
                  (zoo.augmented(c, prob, y), (
                      lambda: e.loss_augmented_inference(
                          xe, y, w, return_energy=True),
                      lambda: m.loss_augmented_inference(
                          xt, y, w, return_energy=True)))):
        (ya, ea), (yb, eb) = fs[0](), fs[1]()
        if not close(ea, eb, sc, 1e-6) and solver_fails(p, False):
            note(False, "AD3 gave up")
            continue
        check(close(ea, eb, sc, 1e-6), "energies %r and %r", ea, eb)
    check(close(e.loss(y, ya), m.loss(y, ya), sc), "losses differ")
    check(close(e.max_loss(y), m.max_loss(y), sc), "max losses differ")
    note(len(c["edges"]) > 0 and c["S"] > 1)


LEGS = identity_legs(["typed"], quick=2500) + [
    Leg("label_coding", typed(), coding, quick=800,
        rule="two or more types with nodes"),
    Leg("exact_inference", typed(cap=200, min_states=2), inference,
        quick=1200, shards=4,
        rule="an edge and two or more types with nodes"),
    Leg("plain_inference", typed(cap=200, min_states=2, soft=gen.PLAIN), plain, quick=800,
        shards=2, rule="at least one edge"),
    Leg("single_type", single(), single_type, quick=600,
        rule="at least one edge"),
]
