import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check
from .infer import BNB, BNBP
from .learn import fit, learners

RULE = ("cases: one model object, several samples, a sequence of calls "
        "(method, sample, options); or a training run; non-trivial: >= 3 "
        "different methods called on a sample with an edge or several states")
ASSUMPTIONS = ["repeated results agree to 1e-9 (labellings exactly)",
               "k-means initialisation is repeated under the same NumPy seed"]


# ------------------------------------------------------------------ plumbing
def arrays(o, out=None):
    if out is None:
        out = []
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for v in o.ravel():
                arrays(v, out)
        else:
            out.append(o)
    elif isinstance(o, (list, tuple)):
        for v in o:
            arrays(v, out)
    elif isinstance(o, dict):
        for v in o.values():
            arrays(v, out)
    return out


def same(a, b, exact=False):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and \
            all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], exact) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or (exact and a.dtype != b.dtype):
            return False
        if a.dtype == object or exact or a.dtype.kind in "ib":
            return bool(np.array_equal(a, b))
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))
    if isinstance(a, float) and not exact:
        return abs(a - b) <= 1e-9 * (1 + abs(a)) or a == b
    return bool(a == b)


def poison(o):
    for a in arrays(o):
        if a.flags.writeable:
            a[...] = 77 if a.dtype.kind in "iuf" else a.dtype.type(1)


def shares(res, inputs):
    for a in arrays(res):
        for b in inputs:
            if a.size and b.size and np.shares_memory(a, b):
                return True
    return False


# --------------------------------------------------------- sequences of calls
METHODS = ["joint_feature", "joint_feature_hat", "inference", "energy",
           "augmented", "augmented_energy", "loss", "max_loss", "relaxed",
           "augmented_relaxed", "jf_relaxed", "loss_relaxed", "batch_jf",
           "batch_inference", "batch_augmented", "batch_loss"]
LATENT_METHODS = ["latent", "label_from_latent", "init_latent", "base_loss"]


@st.composite
def seq(draw, kind):
    prof = ["tie", "int", "small", "unit"]
    solver = draw(st.sampled_from(["max-product", "ad3", "lp", "bnb", "unary"]
                                  if kind != "typed" else
                                  ["ad3", "bnb", "plus"]))
    if kind in ("edge", "dgrid", "multilabel") and draw(st.integers(0, 5)) == 0:
        solver = "plus"
    D = zoo.draw_dataset(draw, kind, 2, 3, cap=150, max_nodes=4, project=True,
                         profs=prof)
    ms = METHODS + (LATENT_METHODS * 2 if kind in zoo.LATENT else [])
    if kind in zoo.FLAT:
        ms = [m for m in ms if "relaxed" not in m]
    k = draw(st.integers(3, 8))
    ops = [[draw(st.sampled_from(ms)), draw(st.integers(0, len(D) - 1))]
           for _ in range(k)]
    return dict(D=D, solver=solver, ops=ops)


def opts(solver):
    return {"bnb": ("ad3", {"branch_and_bound": True}),
            "plus": ("ad3+", {"branch_and_bound": True})}.get(solver, solver)


def can_init(D):
    k = D[0]["kind"]
    if k == "latgraph":
        cnt = {}
        for d in D:
            lab = zoo.label_y(d, d["y"]).ravel()
            for v in lab:
                cnt[int(v)] = cnt.get(int(v), 0) + 1
        return len(set(d["n"] for d in D)) == 1 and all(
            cnt.get(l, s) >= s for l, s in enumerate(D[0]["spl_list"]))
    return False


def call(model, X, Y, H, D, op, i, w, hat):
    """Run one operation; (inputs it was given, result)."""
    x, y, h = X[i], Y[i], hat[i]
    latent = D[0]["kind"] in zoo.LATENT
    if op == "joint_feature":
        return model.joint_feature(x, y)
    if op == "joint_feature_hat":
        return model.joint_feature(x, h)
    if op == "inference":
        return model.inference(x, w)
    if op == "energy":
        return model.inference(x, w, return_energy=True)
    if op == "augmented":
        return model.loss_augmented_inference(x, y, w)
    if op == "augmented_energy":
        return model.loss_augmented_inference(x, y, w, return_energy=True)
    if op == "loss":
        return model.loss(y, h)
    if op == "max_loss":
        return model.max_loss(y)
    if op == "relaxed":
        return model.inference(x, w, relaxed=True)
    if op == "augmented_relaxed":
        return model.loss_augmented_inference(x, y, w, relaxed=True)
    if op in ("jf_relaxed", "loss_relaxed"):
        r = model.inference(x, w, relaxed=True)
        keep = copy.deepcopy(r)
        if op == "jf_relaxed":
            v = model.joint_feature(x, r)
        else:
            v = model.loss(y, r)
        check(same(r, keep, True), "%s changes the labelling passed", op)
        return v
    if op == "batch_jf":
        return model.batch_joint_feature(X, Y)
    if op == "batch_inference":
        return model.batch_inference(X, w)
    if op == "batch_augmented":
        return model.batch_loss_augmented_inference(X, Y, w)
    if op == "batch_loss":
        return model.batch_loss(Y, hat)
    if op == "latent":
        return model.latent(x, H[i], w)
    if op == "label_from_latent":
        return model.label_from_latent(y)
    if op == "base_loss":
        return model.base_loss(H[i], H[i])
    if op == "init_latent":
        np.random.seed(3)
        return model.init_latent(X, H)
    raise KeyError(op)


def skip(kind, solver, op):
    if kind == "binary" and op in ("energy", "augmented_energy"):
        return True
    if kind in zoo.FLAT and op == "max_loss":
        return True          # labels are plain ints here
    return False


def f_seq(c):
    D = c["D"]
    kind = D[0]["kind"]
    flat = kind in zoo.FLAT
    method = None if flat else opts(c["solver"])
    optd = None
    if isinstance(method, tuple):
        optd = copy.deepcopy(method[1])
    cw0 = copy.deepcopy(D[0].get("cw"))
    model = zoo.make_model(D[0], method)
    X, Y = zoo.get_XY(D)
    H = ([zoo.label_y(d, d["y"]) for d in D] if kind in zoo.LATENT else None)
    rng = np.random.RandomState(0)
    hat = [zoo.to_model(d, [rng.randint(len(a)) for a in zoo.allowed(d)])
           for d in D]
    if flat:
        hat = np.array(hat)
    w = np.array(D[0]["w"], dtype=float)
    given = [X, Y, H, hat, w]
    keep = copy.deepcopy(given)
    inputs = arrays(given)
    seen = set()
    ini = kind in zoo.LATENT and can_init(D)
    for step, (op, i) in enumerate(c["ops"]):
        if skip(kind, c["solver"], op) or (op == "init_latent" and not ini):
            continue
        seen.add(op)
        res = call(model, X, Y, H, D, op, i, w, hat)
        check(same(given, keep, True), "%s changed its arguments (%s)", op,
              [n for n, a, b in zip("X Y H hat w".split(), given, keep)
               if not same(a, b, True)])
        if optd is not None:
            check(method[1] == optd, "%s changed the inference options to %s",
                  op, method[1])
        check(same(D[0].get("cw"), cw0, True), "%s changed class_weight", op)
        check(not shares(res, inputs), "the result of %s shares memory with "
              "an argument", op)
        check(not _internal(res), "arrays returned by %s share memory", op)
        fresh = zoo.make_model(D[0], copy.deepcopy(method))
        want = call(fresh, *copy.deepcopy(
            [X, Y, H, D, op, i, w, hat]))
        check(same(res, want), "call %d, %s on sample %d, differs from the "
              "same call on a fresh model: %s, %s", step, op, i, show(res),
              show(want))
        again = None
        kept = copy.deepcopy(res)
        poison(res)
        check(same(given, keep, True), "writing to the result of %s changes "
              "an argument", op)
        again = call(model, X, Y, H, D, op, i, w, hat)
        check(same(again, kept), "%s on sample %d again gives %s after %s",
              op, i, show(again), show(kept))
        poison(again)
    note(len(seen) >= 3 and (flat or any(len(zoo.edges_of(d)) for d in D)),
         *["op=" + o for o in sorted(seen)], kind=kind, solver=c["solver"])


def _internal(res):
    a = arrays(res)
    for i in range(len(a)):
        for j in range(i):
            if a[i].size and a[j].size and np.shares_memory(a[i], a[j]):
                return True
    return False


def show(o):
    s = repr(o)
    return s if len(s) < 250 else s[:250] + "..."


# ------------------------------------------------------- inference_dispatch
@st.composite
def dispatch_case(draw):
    S = draw(st.integers(1, 4))
    n = draw(st.integers(1, 6))
    method = draw(st.sampled_from(["max-product", "max-product", "ad3", "lp",
                                   "unary", "bnb", "ad3+", "plus"]))
    kinds = draw(st.sampled_from(gen.GRAPH_KINDS + ["orderedchain"] * 3))
    E = gen.graph(draw, n, kinds)
    per_edge = draw(st.booleans()) or method in ("ad3+", "plus")
    p = draw(gen.profiles(["tie", "int", "small", "unit"]))
    return dict(U=gen.arr(draw, (n, S), p), E=E, method=method,
                P=gen.arr(draw, (len(E), S, S) if per_edge else (S, S), p),
                relaxed=draw(st.booleans()), en=draw(st.booleans()),
                order=draw(st.sampled_from(["C", "F"])))


def f_dispatch(c):
    from pystruct.inference import inference_dispatch, compute_energy
    U, P, E = c["U"], c["P"], c["E"]
    U = np.array(U, order=c["order"])
    P = np.array(P, order=c["order"])
    given = [U, P, E]
    keep = copy.deepcopy(given)
    for a in given:
        a.flags.writeable = True
    method = opts(c["method"])
    m0 = copy.deepcopy(method)
    kw = dict(relaxed=c["relaxed"], return_energy=c["en"])
    r = inference_dispatch(U, P, E, method, **kw)
    check(same(given, keep, True), "inference_dispatch(%s) changed its "
          "arguments", c["method"])
    check(same(method, m0, True), "the options are now %r", method)
    check(not shares(r, arrays(given)), "the result shares memory with the "
          "potentials")
    k = copy.deepcopy(r)
    poison(r)
    check(same(given, keep, True), "writing to the result changes the "
          "potentials")
    r2 = inference_dispatch(U, P, E, method, **kw)
    check(same(r2, k), "the same call again gives %s after %s", show(r2),
          show(k))
    y = k[0] if c["en"] else k
    if not isinstance(y, tuple):
        y = np.asarray(y)
        y0 = y.copy()
        compute_energy(U, P, E, y)
        check(same(given, keep, True) and np.array_equal(y, y0),
              "compute_energy changed its arguments")
    note(len(E) > 0 and U.shape[1] > 1, method=c["method"])


# ----------------------------------------------------------------- training
@st.composite
def train_case(draw):
    name = draw(st.sampled_from(
        ["nslack", "nslack_warm", "oneslack", "oneslack_cache", "subgradient",
         "subgradient_shuffle", "subgradient_batch", "fw_batch", "fw_bc",
         "perceptron", "perceptron_batch", "sublatent", "latent"]))
    if name in ("sublatent", "latent"):
        kind = draw(st.sampled_from(["latgraph", "latnode"]))
    elif name == "subgradient_batch":
        kind = draw(st.sampled_from(["graph", "multiclass", "edge"]))
    else:
        kind = draw(st.sampled_from(["chain", "graph", "edge", "multiclass",
                                     "multilabel", "grid"]))
    D = zoo.draw_dataset(draw, kind, 2, 4, cap=60, max_nodes=4, project=True,
                         profs=["tie", "unit", "small"], min_states=2,
                         graph_kinds=gen.FOREST_KINDS)
    return dict(D=D, learner=name, C=draw(st.sampled_from([0.1, 1.0, 10.0])))


def build(c, model):
    L = learners()
    n = c["learner"]
    kw = dict(C=c["C"], max_iter=6)
    if n.startswith("nslack"):
        return L["nslack"](model, **kw)
    if n.startswith("oneslack"):
        return L["oneslack"](model, inference_cache=3 if n.endswith("cache")
                             else 0, **kw)
    if n.startswith("subgradient"):
        return L["subgradient"](model, shuffle=n.endswith("shuffle"),
                                batch_size=2 if n.endswith("batch") else None,
                                **kw)
    if n.startswith("fw"):
        return L["frankwolfe"](model, batch_mode=n == "fw_batch",
                               random_state=1, **kw)
    if n.startswith("perceptron"):
        return L["perceptron"](model, max_iter=6,
                               batch=n.endswith("batch"))
    if n == "sublatent":
        return L["sublatent"](model, **kw)
    return L["latent"](L["oneslack"](model, **kw), latent_iter=3)


def f_train(c):
    D = c["D"]
    kind = D[0]["kind"]
    if not any(zoo.loss_ref(d, d["y"], y) > 0 for d in D
               for y in ref.all_labelings([len(a) for a in zoo.allowed(d)])):
        return
    mk = lambda: zoo.make_model(D[0], None if kind in zoo.FLAT else
                                "max-product")
    model = mk()
    lr = build(c, model)
    X, Y = zoo.get_XY(D)
    kw = {}
    given = [X, Y]
    if kind in zoo.LATENT:
        H = Y
        Y = [zoo.label_y(d, d["y"]) for d in D]
        given = [X, Y]
        if c["learner"] == "latent":
            kw["H_init"] = H
            given.append(H)
        else:
            lr.w = np.array(D[0]["w"], dtype=float)
            w0 = lr.w
            given.append(w0)
    cons = None
    if c["learner"] == "nslack_warm":
        cons = []
        for d, x, y in zip(D, X, Y):
            labs = ref.all_labelings([len(a) for a in zoo.allowed(d)])
            h = zoo.to_model(d, labs[-1])
            l = zoo.loss_ref(d, d["y"], labs[-1])
            dj = np.asarray(model.joint_feature(x, y) -
                            model.joint_feature(x, h), dtype=float)
            cons.append([[h, dj, l]] if l > 0 else [])
        kw["constraints"] = cons
        given.append(cons)
    keep = copy.deepcopy(given)
    kind_init = {} if c["learner"] == "latent" else dict(initialize=False)
    if c["learner"] == "latent":
        lab = set(int(v) for y in Y for v in np.ravel(y))
        if lab != set(range(D[0]["n_labels"])):
            return
    ok = fit(lr, X, Y, **dict(kw, **kind_init))
    if not ok:
        return
    check(same(given, keep, True), "%s.fit changed its arguments",
          c["learner"])
    w = np.array(lr.w)
    lr.predict(X)
    lr.score(X, Y)
    check(same(given, keep, True), "predict or score changed the data")
    check(np.array_equal(w, lr.w), "predict or score changed the weights")
    check(not shares(lr.w, arrays(given)), "the weights share memory with an "
          "argument of fit")
    # poison what predict returns
    p = lr.predict(X)
    k = copy.deepcopy(p)
    poison(p)
    check(same(lr.predict(X), k), "writing to predictions changes later ones")
    check(same(given, keep, True), "writing to predictions changes the data")
    # the same training again, on equal data
    if c["learner"] not in ("subgradient_shuffle",):
        lr2 = build(c, mk())
        X2, Y2 = keep[0], keep[1]
        kw2 = {}
        if c["learner"] == "latent":
            kw2["H_init"] = keep[2]
        elif c["learner"] == "sublatent":
            lr2.w = keep[2]
        elif cons is not None:
            kw2["constraints"] = keep[2]
        if fit(lr2, X2, Y2, **dict(kw2, **kind_init)):
            check(np.allclose(lr2.w, w, rtol=1e-7, atol=1e-9),
                  "training on equal data gives other weights: %s, %s",
                  lr2.w.tolist(), w.tolist())
    note(bool(np.any(w != 0)), learner=c["learner"], kind=kind)


LEGS = [Leg("calls_" + k, seq(k), f_seq, quick=200,
            rule=">= 3 different methods, a sample with an edge")
        for k in zoo.CRF_KINDS + zoo.FLAT] + [
    Leg("dispatch", dispatch_case(), f_dispatch, quick=1500, shards=2,
        rule="an edge and several states"),
    Leg("training", train_case(), f_train, quick=1000, shards=4,
        rule="non-zero weights learned"),
]
