"""C34: learners and models in scikit-learn's model selection, copies."""
import copy
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .c13 import same, show
from .c28 import draw_options
from .c31 import _plain
from .learn import TRAIN_KINDS, TRAIN_PROFILES, learners, qp_gave_up, quiet

ASSUMPTIONS = [
    "training is deterministic given NumPy's global random state",
    "max-product inference (labels only matter up to equal results of equal "
    "calls)"]
NAMES = ["nslack", "oneslack", "subgradient", "frankwolfe", "perceptron",
         "latent"]
CURVES = ["objective_curve_", "primal_objective_curve_", "loss_curve_",
          "cached_constraint_"]


def draw_data(draw, n_min, n_max):
    name = draw(st.sampled_from(NAMES))
    kind = "ownlat" if name == "latent" else \
        draw(st.sampled_from(TRAIN_KINDS + ["own"]))
    D = zoo.draw_dataset(draw, kind, n_min, n_max, cap=60, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES, min_states=2,
                         graph_kinds=gen.FOREST_KINDS)
    o = {} if name == "latent" else draw_options(draw, name)
    o.pop("shuffle", None)
    o.pop("n_jobs", None)
    o.pop("show_loss_every", None)
    return dict(D=D, name=name, opts=o, iters=draw(st.sampled_from(
        [1, 3, 20])), C=draw(st.sampled_from([0.1, 1.0, 10.0])))


def build(c, **kw):
    d0 = c["D"][0]
    m = zoo.make_model(d0, None if d0["kind"] in zoo.SINGLE
                       else "max-product")
    L = learners()
    o = dict(c["opts"], max_iter=c["iters"])
    if c["name"] != "perceptron":
        o["C"] = c["C"]
    o.update(kw)
    if c["name"] == "latent":
        it = o.pop("latent_iter", 2)
        return L["latent"](L["oneslack"](m, **o), latent_iter=it)
    return L[c["name"]](m, **o)


def data(c):
    X, Y = zoo.get_XY(c["D"])
    if c["name"] == "latent":
        Y = [zoo.label_y(d, d["y"]) for d in c["D"]]
    return X, Y


def take(A, idx):
    return A[idx] if isinstance(A, np.ndarray) else [A[i] for i in idx]


@st.composite
def cv_case(draw):
    c = draw_data(draw, 3, 7)
    n = len(c["D"])
    if draw(st.booleans()):
        c["folds"] = draw(st.integers(2, min(n, 4)))
    else:
        f = []
        for _ in range(draw(st.integers(1, 3))):
            test = sorted(set(int(v) % n for v in gen.ints(
                draw, draw(st.integers(1, n - 1)), n)))
            train = [i for i in range(n) if i not in test] or [test[0]]
            f.append([train[::draw(st.sampled_from([1, -1]))], test])
        c["folds"] = f
    c["grid"] = draw(st.sampled_from([None, "iters", "C", "both"]))
    if c["name"] == "perceptron" and c["grid"] in ("C", "both"):
        c["grid"] = "iters"
    c["jobs"] = draw(st.sampled_from([None, None, 2]))
    return c


def split(c):
    n = len(c["D"])
    if not isinstance(c["folds"], int):
        return [(np.array(a, dtype=int), np.array(b, dtype=int))
                for a, b in c["folds"]]
    k = c["folds"]
    # consecutive parts, the first n % k of them one longer
    out, s = [], 0
    for i in range(k):
        m = n // k + (i < n % k)
        out.append((np.array([j for j in range(n) if not s <= j < s + m]),
                    np.arange(s, s + m)))
        s += m
    return out


def manual(c, X, Y, kw, folds, **par):
    out = []
    for train, test in folds:
        lr = build(c, **par)
        lr.fit(take(X, train), take(Y, train), **kw)
        out.append(float(lr.score(take(X, test), take(Y, test))))
    return out


def f_cv(c):
    import joblib
    from sklearn.model_selection import GridSearchCV, cross_val_score
    X, Y = data(c)
    kw = {} if c["name"] == "latent" else dict(initialize=False)
    folds = split(c)
    pre = "base_ssvm__" if c["name"] == "latent" else ""
    grid = {}
    if c["grid"] in ("iters", "both"):
        grid[pre + "max_iter"] = [1, 2, 15]
    if c["grid"] in ("C", "both"):
        grid[pre + "C"] = [0.05, 1.0]
    cv = c["folds"] if isinstance(c["folds"], int) else folds
    try:
        with quiet(), warnings.catch_warnings(), \
                joblib.parallel_backend("threading"):
            warnings.simplefilter("ignore")
            if not grid:
                got = cross_val_score(build(c), X, Y, cv=cv, fit_params=kw,
                                      error_score="raise", n_jobs=c["jobs"])
                want = manual(c, X, Y, kw, folds)
            else:
                s = GridSearchCV(build(c), grid, cv=cv, error_score="raise",
                                 n_jobs=c["jobs"])
                s.fit(X, Y, **kw)
                want, got = [], []
                for p, v in zip(s.cv_results_["params"],
                                s.cv_results_["mean_test_score"]):
                    q = {k[len(pre):]: v2 for k, v2 in p.items()}
                    want.append(float(np.mean(manual(c, X, Y, kw, folds,
                                                     **q))))
                    got.append(float(v))
                q = {k[len(pre):]: v for k, v in s.best_params_.items()}
                ref = build(c, **q)
                ref.fit(X, Y, **kw)
                P, R = s.predict(X), ref.predict(X)
                best = s.best_estimator_
                sb, sr = float(s.score(X, Y)), float(ref.score(X, Y))
    except ValueError as e:
        if not qp_gave_up(e):
            raise
        note(False, "QP solver gave up")
        return
    check(len(got) == len(want) and np.allclose(got, want, rtol=1e-12,
                                                atol=1e-12),
          "%s: scikit-learn finds the scores %s, training by hand %s",
          c["name"], list(got), want)
    if grid:
        check(np.array_equal(best.w, ref.w), "%s: the refitted learner has "
              "the weights %s, training by hand gives %s", c["name"],
              show(best.w), show(ref.w))
        check(same(_plain(list(P)), _plain(list(R))), "%s: predictions %s, "
              "by hand %s", c["name"], show(P), show(R))
        check(sb == sr, "%s: score %r, by hand %r", c["name"], sb, sr)
    note(len(set(want)) > 1 or len(folds) > 1 and 0 < np.mean(want) < 1,
         learner=c["name"], kind=c["D"][0]["kind"], grid=c["grid"])


# --------------------------------------------------------------------- copies
@st.composite
def copy_case(draw):
    c = draw_data(draw, 1, 5)
    c["how"] = draw(st.sampled_from(["deepcopy", "pickle2",
                                     "pickle"]))
    c["when"] = draw(st.sampled_from(["before", "after", "model"]))
    c["more"] = draw(st.sampled_from(["fit", "warm", "predict"]))
    return c


def dup(c, o):
    if c["how"] == "deepcopy":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o, 2 if c["how"] == "pickle2" else -1))


def state(lr):
    b = getattr(lr, "base_ssvm", lr)
    r = dict(w=None if getattr(b, "w", None) is None else
             np.asarray(b.w, dtype=float).copy())
    for n in CURVES:
        if hasattr(b, n):
            r[n] = [float(v) for v in getattr(b, n)]
    if hasattr(b, "constraints_"):
        r["constraints"] = len(b.constraints_)
    return r


def f_copy(c):
    X, Y = data(c)
    kw = {} if c["name"] == "latent" else dict(initialize=False)
    warm = c["name"] in ("nslack", "oneslack", "subgradient")

    def go(lr, first=False):
        if first or c["more"] == "fit":
            lr.fit(X, Y, **kw)
        elif c["more"] == "warm" and warm:
            lr.fit(X, Y, warm_start=True, **kw)
        out = state(lr)
        out["predict"] = _plain(list(lr.predict(X)))
        out["score"] = float(lr.score(X, Y))
        return out
    try:
        with quiet():
            lr = build(c)
            if c["when"] == "model":
                other = build(c)
                other.model = dup(c, lr.model)
                a, b = go(lr, True), go(other, True)
                keep = now = None
            else:
                if c["when"] == "after":
                    lr.fit(X, Y, **kw)
                other = dup(c, lr)
                keep = state(lr)
                b = go(other, c["when"] == "before")
                now = state(lr)
                a = go(lr, c["when"] == "before")
    except ValueError as e:
        if not qp_gave_up(e):
            raise
        note(False, "QP solver gave up")
        return
    if keep is not None:
        check(same(keep["w"], now["w"]) and
              all(same(keep[k], now[k]) for k in keep), "%s: using a copy (%s"
              ") changed the original: %s became %s", c["name"], c["how"],
              show(keep), show(now))
    for k in sorted(set(a) | set(b)):
        check(k in a and k in b and same(a[k], b[k]), "%s, copied by %s %s: "
              "%s is %s, of the original %s", c["name"], c["how"], c["when"],
              k, show(b.get(k)), show(a.get(k)))
    note(a["w"] is not None and np.abs(a["w"]).max(initial=0) > 0,
         learner=c["name"], how=c["how"], when=c["when"],
         kind=c["D"][0]["kind"])


# ------------------------------------------------------------------- printing
@st.composite
def repr_case(draw):
    kind = draw(st.sampled_from(zoo.CRF_KINDS + zoo.FLAT + ["own"]))
    D = zoo.draw_dataset(draw, kind, 1, 3, cap=60, max_nodes=4,
                         profs=TRAIN_PROFILES, min_states=2)
    return dict(D=D, explicit=draw(st.booleans()), name=draw(
        st.sampled_from(sorted(learners()))), init=draw(st.booleans()))


def f_repr(c):
    """Models and learners can be printed at any time, before their sizes are
    known and afterwards."""
    D = c["D"]
    d0 = D[0]
    m = zoo.make_model(d0, None if d0["kind"] in zoo.SINGLE else
                       "ad3" if d0["kind"] == "typed" else "max-product",
                       explicit=c["explicit"] or d0["kind"] in
                       ("own", "typed"))
    L = learners()
    lr = L["latent"](L["oneslack"](m)) if c["name"] == "latent" else \
        L[c["name"]](m)
    X, Y = zoo.get_XY(D)

    def show_all(when):
        for o in (m, lr):
            for f in (repr, str):
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        t = f(o)
                except Exception as e:
                    check(False, "%s of a %s %s: %s: %s", f.__name__,
                          type(o).__name__, when, type(e).__name__, e)
                check(isinstance(t, str) and type(o).__name__ in t,
                      "%s of a %s is %r", f.__name__, type(o).__name__, t)
    show_all("before initialisation")
    known = False
    if c["init"]:
        if d0["kind"] == "multilabel":
            X, Y = np.array(X), np.array(Y)
        try:
            if d0["kind"] in zoo.LATENT:
                Y = [zoo.label_y(d, d["y"]) for d in D]
            m.initialize(X, Y)
            known = True
        except ValueError:
            pass                # labels missing; C25 judges that
        show_all("after initialisation")
    note(not c["explicit"], kind=d0["kind"], known=known, learner=c["name"])


LEGS = [
    Leg("printing", repr_case(), f_repr, quick=200,
        rule="sizes not given"),
    Leg("selection", cv_case(), f_cv, quick=250, shards=3,
        rule="scores differ between folds or parameters, or lie strictly "
             "between 0 and 1"),
    Leg("copies", copy_case(), f_copy, quick=400, shards=2,
        rule="non-zero weights")]
RULE = "see each leg"
