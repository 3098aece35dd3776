"""C28: interrupted and failing training runs."""
import threading

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import (Program, TRAIN_KINDS, TRAIN_PROFILES, draw_train, learners,
                    qp_gave_up, quiet)

ASSUMPTIONS = [
    "interruptions arrive during a call of the model's inference, or of the "
    "logger, inside the training loop (up to the last per-iteration logger "
    "call of the undisturbed run)",
    "training is deterministic (fixed random states), so the disturbed run "
    "follows the undisturbed one up to the interruption",
    "risks are those of the program with all labellings enumerated; runs in "
    "which cvxopt reports failure are excused"]


class Planted(Exception):
    pass


class Calls(object):
    """Counts the learner's outermost inference and logger calls, keeps what
    `look` sees at each and raises at the one asked for."""
    NAMES = ["loss_augmented_inference", "batch_loss_augmented_inference",
             "inference", "batch_inference"]

    def __init__(self, model, look, at=None, error=None):
        self.model, self.look, self.at, self.error = model, look, at, error
        self.seen, self.logged, self.fired = [], [], False
        self.here, self.lock = threading.local(), threading.Lock()
        self.before_last_log = 0
        for n in self.NAMES:
            if hasattr(model, n):
                setattr(model, n, self.wrap(getattr(model, n)))

    def event(self, kind):
        with self.lock:
            self.seen.append((kind, self.look()))
            now = self.at == len(self.seen)
        if now:
            self.fired = True
            raise self.error("planted")

    def wrap(self, f):
        def g(*a, **k):
            h = self.here
            h.depth = getattr(h, "depth", 0) + 1
            try:
                if h.depth == 1:
                    self.event("inference")
                return f(*a, **k)
            finally:
                h.depth -= 1
        return g

    def remove(self):
        for n in self.NAMES:
            self.model.__dict__.pop(n, None)

    # the logger
    def __call__(self, learner, iteration=0):
        self.logged.append(iteration)
        if iteration != "final":
            self.event("logger")
            self.before_last_log = len(self.seen)

    def __deepcopy__(self, memo):
        return self


def draw_options(draw, name):
    o = {}
    if name in ("nslack", "oneslack", "subgradient", "frankwolfe"):
        o["show_loss_every"] = draw(st.sampled_from([0, 0, 1, 2]))
    if name == "nslack":
        o.update(tol=draw(st.sampled_from([-10, 1e-3])),
                 inactive_window=draw(st.sampled_from([50, 1, 0])),
                 batch_size=draw(st.sampled_from([100, 1, 2])),
                 check_constraints=draw(st.booleans()))
    elif name == "oneslack":
        o.update(tol=draw(st.sampled_from([1e-3, 1e-2])),
                 inference_cache=draw(st.sampled_from([0, 1, 10])),
                 inactive_window=draw(st.sampled_from([50, 2, 0])),
                 cache_tol=draw(st.sampled_from(["auto", None, 0.1])))
    elif name == "frankwolfe":
        o.update(batch_mode=draw(st.booleans()),
                 line_search=draw(st.booleans()),
                 check_dual_every=draw(st.sampled_from([10, 1, 0])),
                 do_averaging=draw(st.booleans()),
                 sample_method=draw(st.sampled_from(["perm", "rnd", "seq"])),
                 random_state=draw(st.integers(0, 3)))
    elif name in ("subgradient", "sublatent"):
        o.update(learning_rate=draw(st.sampled_from(["auto", 0.01, 0.5])),
                 momentum=draw(st.sampled_from([0.0, 0.9])),
                 averaging=draw(st.sampled_from([None, "linear", "squared"])))
        if name == "subgradient":
            o.update(shuffle=draw(st.booleans()),
                     batch_size=None)
            del o["batch_size"]
    elif name == "perceptron":
        o.update(batch=draw(st.booleans()),
                 decay_exponent=draw(st.sampled_from([0, -1, 1])),
                 average=draw(st.sampled_from([False, 0, 1, -1])))
    if draw(st.integers(0, 5)) == 0 and name not in ("frankwolfe", "latent"):
        o["n_jobs"] = 2
    return o


@st.composite
def case(draw):
    c = draw_train(draw, TRAIN_KINDS)
    c["name"] = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                      "frankwolfe", "perceptron"]))
    if c["name"] == "perceptron":
        for d in c["D"]:
            d.pop("rescale_C", None)
    c["opts"] = draw_options(draw, c["name"])
    c["iters"] = draw(st.sampled_from([1, 2, 4, 20]))
    c["at"] = draw(st.integers(0, 10 ** 6))
    c["early"] = draw(st.booleans())
    c["error"] = draw(st.sampled_from(["interrupt", "interrupt", "planted"]))
    c["seed"] = draw(st.integers(0, 100))
    c["before"] = c["name"] != "subgradient" and draw(st.integers(0, 2)) == 0
    return c


def build(c, P, logger=None, **kw):
    o = dict(c["opts"], max_iter=c["iters"], logger=logger)
    if c["name"] != "perceptron":
        o["C"] = c["C"]
    o.update(kw)
    return learners()[c["name"]](P.model, **o)


def train(lr, X, Y, seed, **kw):
    """fit; "gave up" when cvxopt did, the exception that came out, or None."""
    import joblib
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        with quiet(), joblib.parallel_backend("threading"):
            r = lr.fit(X, Y, **kw)
    except KeyboardInterrupt as e:
        return e
    except Planted as e:
        return e
    except ValueError as e:
        if not qp_gave_up(e):
            raise
        return "gave up"
    finally:
        np.random.set_state(state)
    check(r is lr, "fit returned %r", type(r))
    return None


def weights(lr):
    w = getattr(lr, "w", None)
    return None if w is None else np.array(w, dtype=float)


def pick(c, calls):
    """The position of the interruption."""
    n = calls.before_last_log or 1
    if c["early"]:
        n = min(n, 8)
    return 1 + c["at"] % n


def same_w(a, b):
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= 1e-9 * (1 + np.abs(b))).all())


def curves(lr):
    return {k: [float(v) for v in getattr(lr, k)] for k in (
        "objective_curve_", "primal_objective_curve_", "loss_curve_",
        "cached_constraint_") if hasattr(lr, k)}


def fn(c):
    P = Program(c)
    name = c["name"]
    error = KeyboardInterrupt if c["error"] == "interrupt" else Planted
    # the undisturbed run
    lr = build(c, P)
    calls = lr.logger = Calls(P.model, lambda: weights(lr))
    try:
        r = train(lr, P.X, P.Y, c["seed"], initialize=False)
    finally:
        calls.remove()
    if r is not None:
        check(r == "gave up", "fit raised %r", r)
        note(False, "QP solver gave up")
        return
    k = pick(c, calls)
    # the disturbed one
    lr2 = build(c, P)
    if c.get("before"):     # a learner that was fitted before
        if train(lr2, P.X, P.Y, c["seed"], initialize=False) is not None:
            note(False, "QP solver gave up")
            return
    dis = lr2.logger = Calls(P.model, lambda: weights(lr2), k, error)
    try:
        r = train(lr2, P.X, P.Y, c["seed"], initialize=False)
    finally:
        dis.remove()
    if r == "gave up":
        note(False, "QP solver gave up")
        return
    par = c["opts"].get("n_jobs", 1) > 1
    if not dis.fired:
        check(par, "the same run makes other calls")
        note(False)
        return
    kind, at = calls.seen[k - 1]
    where = "interrupted at call %d (%s)" % (k, kind)
    if error is Planted:
        check(isinstance(r, Planted), "an error raised by a call of the %s "
              "didn't come out of fit (%r)", kind, r)
    else:
        check(r is None, "%s: %r came out of fit", where, r)
        ended(c, P, lr2, dis, where, at, par)
        if name in ("nslack", "oneslack"):
            resume(c, P, lr2, where)
    again(c, P, lr, lr2, where)
    note(k > 1 and at is not None and float(np.abs(at).max(initial=0)) > 0,
         name=name, at=kind, error=c["error"], before=bool(c.get("before")))


def ended(c, P, lr, dis, where, at, par):
    w = weights(lr)
    d = P.Fs[0].shape[1]
    check(w is not None and w.shape == (d,) and np.isfinite(w).all(),
          "%s: weights %s", where, w)
    name = c["name"]
    averaged = name == "perceptron" and c["opts"]["average"] is not False
    if not averaged and not par and at is not None:
        check(same_w(w, at), "%s: weights %s, the completed updates gave %s",
              where, w.tolist(), at.tolist())
    if averaged:
        want = average(c, dis.seen, P.n, d)
        check(same_w(w, want), "%s: weights %s, the average of the completed "
              "updates is %s", where, w.tolist(), want.tolist())
    check(dis.logged.count("final") == 1 and dis.logged[-1] == "final",
          "%s: logger called with %s", where, dis.logged)
    with quiet():
        got = lr.predict(P.X)
        for d_, x, y in zip(P.D, P.X, got):
            want = P.model.inference(x, lr.w)
            check(np.array_equal(np.asarray(y), np.asarray(want)),
                  "%s: predicts %s, the model %s", where, y, want)
        s = lr.score(P.X, P.Y)
    check(np.isfinite(s), "%s: score %r", where, s)
    if name == "perceptron":
        return
    r = P.risk(w)
    pri = lr.objective_curve_ if name == "subgradient" else \
        lr.primal_objective_curve_
    check(len(pri) > 0 and close(float(pri[-1]), r, r, 1e-8),
          "%s: final primal objective %s, the risk is %r", where, pri[-1:], r)
    if name != "subgradient":
        up, _ = P.opt()
        v = [float(t) for t in lr.objective_curve_]
        check(len(v) == len(pri), "%s: curves of lengths %d and %d", where,
              len(v), len(pri))
        # do_averaging mixes weights and losses alike, still a dual point
        check(max(v) <= up + 2e-5 * (1 + up), "%s: dual objective %r above "
              "the optimum %r", where, max(v), up)


def average(c, seen, n, d):
    """What an averaging perceptron has averaged: the weights after each sample
    (batch: each epoch), as seen by the call following it."""
    epochs = [[]]
    i = 0
    for kind, w in seen:
        if kind == "logger":
            epochs[-1].append(w)
            epochs.append([])
            i = 0
            continue
        if i > 0 and not c["opts"]["batch"]:
            epochs[-1].append(w)
        i += 1
    a = c["opts"]["average"]
    if a == -1:
        full = [e for e in epochs if e]
        obs = full[-1] if full else []
    else:
        obs = [w for e in epochs[a:] for w in e]
    return np.mean(obs, axis=0) if obs else np.zeros(d)


def resume(c, P, lr, where):
    """Continuing an interrupted cutting-plane run reaches the optimum."""
    lr.max_iter = 3000
    lr.logger = None
    if c["name"] == "nslack":
        lr.tol = -10
        kw = dict(constraints=lr.constraints_)
    else:
        lr.tol = 1e-3
        kw = dict(warm_start=True)
    r = train(lr, P.X, P.Y, c["seed"], initialize=False, **kw)
    if r is not None:
        check(r == "gave up", "%s: continuing raised %r", where, r)
        return
    up, _ = P.opt()
    r = P.risk(np.asarray(lr.w, float))
    slack = 2e-4 * (1 + up) + 2e-5 * c["C"] * P.n
    if c["name"] == "oneslack":
        slack += c["C"] * P.n * lr.tol
    check(r <= up + slack, "%s: continuing ends at risk %r, the optimum is "
          "%r", where, r, up)
    lr.max_iter, lr.tol = c["iters"], c["opts"]["tol"]


def again(c, P, lr, lr2, where):
    """A new fit is that of a fresh learner."""
    if c["name"] == "subgradient":
        return      # continues from its weights
    lr2.logger = None
    r = train(lr2, P.X, P.Y, c["seed"], initialize=False)
    if r is not None:
        check(r == "gave up", "%s: fitting again raised %r", where, r)
        return
    a, b = weights(lr2), weights(lr)
    check(a.shape == b.shape and
          bool((np.abs(a - b) <= 1e-7 * (1 + np.abs(b))).all()),
          "%s: fitting again gives %s, a fresh learner %s", where, a.tolist(),
          b.tolist())
    ca, cb = curves(lr2), curves(lr)
    for k in cb:
        check(len(ca[k]) == len(cb[k]) and np.allclose(
            ca[k], cb[k], rtol=1e-6, atol=1e-6), "%s: fitting again gives %s "
            "%s, a fresh learner %s", where, k, ca[k], cb[k])


# --------------------------------------------------------------------- latent
@st.composite
def latent_case(draw):
    kind = draw(st.sampled_from(["latgraph", "latnode"]))
    c = dict(name=draw(st.sampled_from(["sublatent", "latent"])),
             D=zoo.draw_dataset(draw, kind, 2, 4, cap=60, max_nodes=4,
                                project=True, profs=TRAIN_PROFILES,
                                graph_kinds=gen.FOREST_KINDS),
             C=draw(st.sampled_from([1.0, 0.1, 10.0])),
             iters=draw(st.sampled_from([1, 2, 5])),
             at=draw(st.integers(0, 10 ** 6)),
             early=draw(st.booleans()), seed=draw(st.integers(0, 100)))
    if c["name"] == "latent":
        c["base"] = draw(st.sampled_from(["nslack", "oneslack",
                                          "subgradient"]))
        c["opts"] = dict(latent_iter=draw(st.sampled_from([1, 2, 4])))
    else:
        c["opts"] = draw_options(draw, "sublatent")
    return c


def f_latent(c):
    D = c["D"]
    model = zoo.make_model(D[0], "max-product")
    X, Y = zoo.get_XY(D)
    Yv = [zoo.label_y(d, d["y"]) for d in D]
    L = learners()
    kw = {}

    def make():
        if c["name"] == "latent":
            b = L[c["base"]](model, C=c["C"], max_iter=10 * c["iters"])
            return L["latent"](b, **c["opts"])
        return L["sublatent"](model, C=c["C"], max_iter=c["iters"],
                              **c["opts"])
    if c["name"] == "latent":
        kw["H_init"] = Y
    else:
        kw["initialize"] = False
        kw["H_init"] = Y
    seen = set()
    for y in Yv:
        seen |= set(np.ravel(y).tolist())
    if len(seen) != D[0]["n_labels"]:
        note(False, "labels missing")
        return
    runs = []
    k = None
    for i in range(2):
        lr = make()
        target = lr.base_ssvm if c["name"] == "latent" else lr
        calls = Calls(model, lambda: weights(target), k, KeyboardInterrupt)
        target.logger = calls
        try:
            r = train(lr, X, Yv, c["seed"], **kw)
        finally:
            calls.remove()
        if r == "gave up":
            note(False, "QP solver gave up")
            return
        if i == 0:
            check(r is None, "fit raised %r", r)
            k = pick(c, calls)
        runs.append((lr, calls))
    kind, at = runs[0][1].seen[k - 1]
    where = "interrupted at call %d (%s)" % (k, kind)
    lr, calls = runs[1]
    par = c["opts"].get("n_jobs", 1) > 1
    if not calls.fired:
        check(par, "the same run makes other calls")
        note(False)
        return
    check(r is None, "%s: %r came out of fit", where, r)
    w = weights(lr)
    check(w.shape == (model.size_joint_feature,) and np.isfinite(w).all(),
          "%s: weights %s", where, w)
    if c["name"] == "sublatent" and not par and at is not None:
        check(same_w(w, at), "%s: weights %s, the completed updates gave %s",
              where, w.tolist(), at.tolist())
    if c["name"] == "sublatent":
        check(calls.logged.count("final") == 1 and calls.logged[-1] == "final",
              "%s: logger called with %s", where, calls.logged)
    with quiet():
        got = lr.predict(X)
        for d, x, y in zip(D, X, got):
            want = model.label_from_latent(model.inference(x, w))
            check(np.array_equal(np.asarray(y), np.asarray(want)),
                  "%s: predicts %s, the model %s", where, y, want)
        check(np.isfinite(lr.score(X, Yv)), "%s: score", where)
    note(k > 1 and at is not None and float(np.abs(at).max(initial=0)) > 0,
         name=c["name"], at=kind)


LEGS = [
    Leg("stop", case(), fn, quick=900, shards=4,
        rule="stopped after the weights left zero"),
    Leg("latent", latent_case(), f_latent, quick=300, shards=2,
        rule="stopped after the weights left zero")]
RULE = "see each leg"
