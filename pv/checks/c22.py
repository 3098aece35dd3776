"""C22: learners carry nothing from one fit to the next; constructor
parameters round-trip."""
import copy
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .learn import TRAIN_KINDS, TRAIN_PROFILES, fit, learners

RULE = ("cases: a history of fits (data, C, iterations) of one learner; "
        "non-trivial: the last fit has non-zero weights and an earlier one "
        "other weights")
ASSUMPTIONS = [
    "training is deterministic (fixed random_state), so a refit must agree "
    "with a fresh learner to 1e-7",
    "subgradient learners continue from their weights by design and are only "
    "covered by the parameter checks"]
CURVES = ["objective_curve_", "primal_objective_curve_", "loss_curve_",
          "cached_constraint_"]


@st.composite
def case(draw):
    name = draw(st.sampled_from(["nslack", "oneslack", "frankwolfe",
                                 "perceptron", "latent"]))
    kind = draw(st.sampled_from(
        ["latgraph", "latnode"] if name == "latent" else TRAIN_KINDS))
    D = zoo.draw_dataset(draw, kind, 2, 6, cap=60, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES,
                         min_states=2, graph_kinds=gen.FOREST_KINDS) \
        if name != "latent" else \
        zoo.draw_dataset(draw, kind, 2, 5, cap=60, max_nodes=4, project=True,
                         profs=TRAIN_PROFILES, graph_kinds=gen.FOREST_KINDS)
    if name == "perceptron":
        for d in D:
            d.pop("rescale_C", None)
    c = dict(name=name, D=D)
    o = {}
    if name != "latent":
        o["show_loss_every"] = draw(st.sampled_from([0, 0, 1, 2])) \
            if name != "perceptron" else None
        if o["show_loss_every"] is None:
            del o["show_loss_every"]
    if name == "nslack":
        o.update(tol=draw(st.sampled_from([-10, 1e-3])),
                 inactive_window=draw(st.sampled_from([50, 1, 0])),
                 batch_size=draw(st.sampled_from([100, 1, 2])),
                 check_constraints=draw(st.booleans()))
    elif name == "oneslack":
        o.update(tol=draw(st.sampled_from([1e-3, 1e-2])),
                 inference_cache=draw(st.sampled_from([0, 1, 10])),
                 inactive_window=draw(st.sampled_from([50, 2, 0])),
                 cache_tol=draw(st.sampled_from(["auto", None, 0.1])))
    elif name == "frankwolfe":
        o.update(batch_mode=draw(st.booleans()),
                 line_search=draw(st.booleans()),
                 check_dual_every=draw(st.sampled_from([10, 1, 0])),
                 do_averaging=draw(st.booleans()),
                 sample_method=draw(st.sampled_from(["perm", "rnd", "seq"])),
                 random_state=draw(st.integers(0, 3)))
    elif name == "perceptron":
        o.update(batch=draw(st.booleans()),
                 decay_exponent=draw(st.sampled_from([0, -1, 1])),
                 average=draw(st.sampled_from([False, 0, 1, -1])))
    else:
        c["base"] = draw(st.sampled_from(["nslack", "oneslack"]))
        o["latent_iter"] = draw(st.sampled_from([1, 2, 4]))
    c["opts"] = o
    n = len(D)
    c["steps"] = []
    for _ in range(draw(st.integers(2, 4))):
        pick = sorted(set(int(v) for v in gen.ints(
            draw, draw(st.integers(1, n)), n)))
        c["steps"].append(dict(
            pick=pick, C=draw(st.sampled_from([1.0, 0.1, 10.0])),
            it=draw(st.sampled_from([1, 3, 30])),
            use=draw(st.sampled_from(["", "predict", "score", "copy"]))))
    return c


def build(c, step):
    m = zoo.make_model(c["D"][0], None if c["D"][0]["kind"] in zoo.FLAT
                       else "max-product")
    L = learners()
    o = dict(c["opts"])
    if c["name"] == "latent":
        b = L[c["base"]](m, C=step["C"], max_iter=10 * step["it"])
        return L["latent"](b, **o)
    if c["name"] == "perceptron":
        return L["perceptron"](m, max_iter=step["it"], **o)
    return L[c["name"]](m, C=step["C"], max_iter=step["it"], **o)


def configure(c, lr, step):
    if c["name"] == "latent":
        lr.set_params(base_ssvm__C=step["C"],
                      base_ssvm__max_iter=10 * step["it"])
    elif c["name"] == "perceptron":
        lr.set_params(max_iter=step["it"])
    else:
        lr.set_params(C=step["C"], max_iter=step["it"])


def run(c, lr, step):
    D = [c["D"][i] for i in step["pick"]]
    X, Y = zoo.get_XY(D)
    kw = {}
    if c["name"] == "latent":
        seen = set()
        for d in D:
            seen |= set(np.ravel(zoo.label_y(d, d["y"])).tolist())
        if len(seen) != D[0]["n_labels"]:
            return None
        kw["H_init"] = Y
        Y = [zoo.label_y(d, d["y"]) for d in D]
    else:
        kw["initialize"] = False
    if not fit(lr, X, Y, **kw):
        return None
    return X, Y


def curves(lr):
    base = getattr(lr, "base_ssvm", lr)
    return {k: [float(v) for v in getattr(base, k)]
            for k in CURVES if hasattr(base, k)}


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= 1e-7 * (1 + np.abs(b))).all())


def fn(c):
    lr = build(c, c["steps"][0])
    params = lr.get_params(deep=False)
    ws = []
    for k, s in enumerate(c["steps"]):
        configure(c, lr, s)
        r = run(c, lr, s)
        fresh = build(c, s)
        q = run(c, fresh, s)
        if r is None or q is None:
            note(False, "not fitted")
            return
        what = "fit %d of %s" % (k, c["name"])
        check(same(lr.w, fresh.w), "%s: weights %s, a fresh learner gets %s",
              what, np.asarray(lr.w).tolist(), np.asarray(fresh.w).tolist())
        a, b = curves(lr), curves(fresh)
        check(set(a) == set(b), "%s: curves %s, a fresh learner has %s", what,
              sorted(a), sorted(b))
        for n in a:
            check(same(a[n], b[n]), "%s: %s is %s, a fresh learner has %s",
                  what, n, a[n], b[n])
        ws.append(np.array(lr.w))
        if s["use"] == "predict":
            lr.predict(r[0])
        elif s["use"] == "score":
            lr.score(*r)
        elif s["use"] == "copy":
            lr = copy.deepcopy(lr)
    now = lr.get_params(deep=False)
    check(sorted(now) == sorted(params), "parameters %s, before %s",
          sorted(now), sorted(params))
    for n in params:
        if n in ("model", "base_ssvm", "C", "max_iter"):
            continue
        check(now[n] is params[n] or now[n] == params[n], "training changed "
              "the parameter %s from %r to %r", n, params[n], now[n])
    note(any(np.abs(ws[-1]).max(initial=0) > 1e-9 and not same(w, ws[-1])
             for w in ws[:-1]), name=c["name"], steps=len(ws),
         kind=c["D"][0]["kind"])


# ----------------------------------------------------------------- parameters
VALUES = [0, 1, 2, 7, -1, 0.5, 1e-3, 10.0, True, False, None, "auto", "x"]


@st.composite
def pcase(draw):
    name = draw(st.sampled_from(sorted(learners())))
    n = 40
    return dict(name=name, pick=[int(v) for v in gen.ints(draw, n,
                                                          len(VALUES))],
                use=[int(v) for v in gen.ints(draw, n, 2)],
                pick2=[int(v) for v in gen.ints(draw, n, len(VALUES))],
                base=draw(st.sampled_from(["nslack", "oneslack",
                                           "subgradient"])))


def spec_of(c, cls, pick):
    names = [p for p in inspect.signature(cls.__init__).parameters][1:]
    out = {}
    for i, n in enumerate(names):
        if n in ("model", "base_ssvm"):
            continue
        v = VALUES[pick[i]]
        if n == "sample_method":
            v = ["perm", "rnd", "seq"][pick[i] % 3]
        if n in ("verbose", "n_jobs"):
            v = pick[i] % 3 + (n == "n_jobs")
        out[n] = v
    return names, out


def f_params(c):
    from sklearn.base import clone
    from pystruct import models as M
    cls = learners()[c["name"]]
    names, vals = spec_of(c, cls, c["pick"])
    given = {n: v for (n, v), u in zip(sorted(vals.items()), c["use"]) if u}
    model = M.MultiClassClf(n_features=2, n_classes=3)
    first = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if "base_ssvm" in names:
            first["base_ssvm"] = learners()[c["base"]](model, C=0.3)
        else:
            first["model"] = model
        lr = cls(**first, **given)
        p = lr.get_params(deep=False)
        check(sorted(p) == sorted(names), "%s: get_params has %s, the "
              "constructor %s", c["name"], sorted(p), sorted(names))
        sig = inspect.signature(cls.__init__).parameters
        for n in names:
            want = first.get(n, given.get(n, sig[n].default))
            check(p[n] is want or p[n] == want, "%s(%s=%r) has the parameter "
                  "%r", c["name"], n, want, p[n])
            check(getattr(lr, n) is want or getattr(lr, n) == want,
                  "%s(%s=%r) has the attribute %r", c["name"], n, want,
                  getattr(lr, n))
        two = clone(lr)
        check(type(two) is cls and two is not lr, "clone is %r", type(two))
        q = two.get_params(deep=False)
        for n in names:
            if n in first:
                check(type(q[n]) is type(p[n]) and q[n] is not p[n],
                      "clone's %s is %r", n, q[n])
            else:
                check(q[n] is p[n] or q[n] == p[n], "clone has %s=%r instead "
                      "of %r", n, q[n], p[n])
        _, other = spec_of(c, cls, c["pick2"])
        r = two.set_params(**other)
        check(r is two, "set_params returns %r", r)
        q = two.get_params(deep=False)
        for n, v in other.items():
            check(q[n] is v or q[n] == v, "set_params(%s=%r) leaves %r", n, v,
                  q[n])
        for n in names:
            check(lr.get_params(deep=False)[n] is p[n] or
                  lr.get_params(deep=False)[n] == p[n],
                  "the clone's set_params changed %s", n)
        if "base_ssvm" in names:
            lr.set_params(base_ssvm__C=7.5)
            check(lr.base_ssvm.C == 7.5 == lr.C, "base_ssvm__C not set")
            check(lr.get_params()["base_ssvm__C"] == 7.5, "deep get_params")
            lr.C = 2.5
            check(lr.base_ssvm.C == 2.5, "C isn't the base learner's")
            lr.n_jobs = 2
            check(lr.base_ssvm.n_jobs == 2, "n_jobs isn't the base's")
        repr(lr)
    note(len(given) >= 3, name=c["name"])


LEGS = [
    Leg("refit", case(), fn, quick=700, shards=4,
        rule="last weights non-zero, earlier ones different"),
    Leg("params", pcase(), f_params, quick=400,
        rule="three or more parameters given"),
]
