import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check
from .infer import BNB, judge

RULE = ("cases: latent-variable model instance with weights and observable "
        "labels; non-trivial: the completion had several candidates of "
        "different score, and unconstrained inference gives other labels")
ASSUMPTIONS = ["completions compared by score (ties)",
               "exact inference: max-product on cycle-free graphs (any "
               "magnitude), AD3 with branch and bound on others (magnitudes "
               "up to ~100)"]


@st.composite
def case(draw, kind, mp):
    if mp:
        profs = gen.PROFILES
    else:
        profs = gen.PLAIN
    c = zoo.draw_case(draw, kind, cap=250, max_nodes=6, profs=profs,
                      project=True,
                      graph_kinds=gen.FOREST_KINDS if mp else None)
    if mp and kind in zoo.GRIDS:
        n = max(c["shape"])
        c["shape"] = [n, 1] if draw(st.booleans()) else [1, n]
        c["n"] = n
        px = c["profiles"][0]
        c["x"] = gen.arr(draw, tuple(c["shape"]) + (c["F"],), px)
        c["y"] = gen.ints(draw, n, c["S"])
    c["mp"] = mp
    return c


def fn(c):
    k = c["kind"]
    method = "max-product" if c["mp"] else BNB
    solver = None if c["mp"] else "ad3"
    rtol = 1e-6 if c["mp"] else 2e-4
    if c["mp"] and "big" in c["profiles"]:
        rtol = 1e-7        # relative to the magnitudes at hand
    model = zoo.make_model(c, method)
    x = zoo.get_x(c)
    w = np.array(c["w"], dtype=float)
    prob = zoo.problem(c)
    lab = zoo.labels_of_states(c)
    y = zoo.label_y(c, c["y"]).astype(c.get("ydtype", "int64"))
    h = model.latent(x, y, w)
    hl = zoo.from_model(c, h, "latent()")
    got = zoo.label_y(c, hl)
    check(np.array_equal(got, y), "latent() changed the labels %s to %s",
          y.tolist(), got.tolist())
    # the best completion by enumeration
    labs = ref.all_labelings([len(u) for u in prob[0]])
    ok = np.ones(len(labs), dtype=bool)
    for i, l in enumerate(lab):
        if l is not None:
            ok &= l[labs[:, i]] == l[c["y"][i]]
    sc = ref.all_scores(prob, labs)
    best = sc[ok].max()
    s = ref.score(prob, hl)
    if abs(best - s) > rtol * ref.magnitude(prob):
        check(solver is not None and solver_gave_up(c, prob, lab),
              "latent(): score %r, the best completion has %r (%s)", s, best,
              hl.tolist())
    # the observable labels of any latent labelling
    full = zoo.to_model(c, c["y"])
    check(np.array_equal(np.ravel(model.label_from_latent(full)),
                         np.ravel(y)), "label_from_latent(%s) = %s, expected "
          "%s", full.tolist(), model.label_from_latent(full), y.tolist())
    if k not in ("latnode", "eflatnode"):
        for t in range(c["S"]):
            check(int(model.label_from_latent(t)) == int(lab[0][t]),
                  "label_from_latent(%d) = %r", t,
                  model.label_from_latent(t))
    # inference stays within the states a node can take (and is exact)
    r = model.inference(x, w)
    judge(c, prob, r, "inference", rtol, solver=solver)
    r2 = model.loss_augmented_inference(x, full, w)
    zoo.from_model(c, r2, "loss_augmented_inference")
    note(ok.sum() > 1 and np.ptp(sc[ok]) > 1e-9 and best < sc.max() - 1e-9,
         kind=k, prof=c["profiles"], mp=c["mp"])


def solver_gave_up(c, prob, lab):
    from .infer import solver_fails
    U = [np.array(u, dtype=float) if l is None else
         np.where(l == l[c["y"][i]], u, np.min(u) - 100.)
         for i, (u, l) in enumerate(zip(prob[0], lab))]
    r = solver_fails((U, prob[1], prob[2]), False)
    if r:
        note(False, "AD3 gave up")
    return r


# --------------------------------------------------------------- init_latent
@st.composite
def icase(draw, kind):
    nl = draw(st.integers(2, 3))
    F = draw(st.integers(1, 2))
    n_samples = draw(st.integers(1, 3))
    px = draw(gen.profiles(["tie", "quarter", "float"]))
    c = dict(kind=kind, n_labels=nl, F=F, profiles=[px, px])
    D = []
    if kind in ("latgrid", "latdgrid"):
        H, W = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    spl = ([draw(st.integers(1, 2))] * nl if draw(st.booleans()) else
           [int(v) + 1 for v in gen.ints(draw, nl, 3)])
    nh = draw(st.integers(1, 2))
    for i in range(n_samples):
        d = {}
        if kind in ("latgrid", "latdgrid"):
            n = H * W
            d["x"] = gen.arr(draw, (H, W, F), px)
        else:
            n = draw(st.integers(nl * 2 + 1, 9))
        if kind == "latgraph":
            d["x"] = gen.arr(draw, (n, F), px)
            d["edges"] = gen.graph(draw, n)
        elif kind in ("latnode", "eflatnode"):
            nhid = d["n_hidden"] = draw(st.integers(nh, 3))
            lnf = d["lnf"] = D[0]["lnf"] if D else draw(st.booleans())
            d["x"] = gen.arr(draw, (n + nhid if lnf else n, F), px)
            # the last node is connected (pystruct counts nodes by edges)
            e = gen.graph(draw, n + nhid, "tree", shuffle=False)
            more = gen.ints(draw, (3, 2), n + nhid)
            seen = set(map(tuple, e.tolist()))
            for a, b in more:
                if a < b and (a, b) not in seen:
                    seen.add((int(a), int(b)))
                    e = np.vstack([e, [[a, b]]])
            # hidden nodes on either end of their edges
            e = np.array(e)
            flip = draw(st.sampled_from(["no", "random", "all", "sorted"]))
            if flip == "random":
                f = gen.ints(draw, len(e), 2) == 1
                e[f] = e[f, ::-1]
            elif flip != "no":
                e.sort(axis=1)
                if flip == "all":
                    e = e[:, ::-1].copy()
            d["edges"] = e
            d["ef"] = gen.arr(draw, (len(e), 1), px)
        y = gen.ints(draw, n, nl)
        d["y"] = y
        D.append(d)
    # every label often enough for its number of states
    D[0]["y"] = D[0]["y"].copy()
    k = 0
    for _ in range(max(spl)):
        for l in range(nl):
            if k < len(D[0]["y"]):
                D[0]["y"][k] = l
                k += 1
    tot = np.bincount(np.concatenate([d["y"] for d in D]), minlength=nl)
    # fit() takes the number of labels from the data
    spl = [int(min(s, t)) for s, t in zip(spl, tot)]
    c.update(D=D, spl=spl, nh=nh)
    return c


def finit(c):
    from pystruct import models as M
    from sklearn.exceptions import ConvergenceWarning
    k, nl, F, D = c["kind"], c["n_labels"], c["F"], c["D"]
    grid = k in ("latgrid", "latdgrid")
    node = k in ("latnode", "eflatnode")
    Y = [d["y"].reshape(d["x"].shape[:2]) if grid else np.array(d["y"])
         for d in D]
    if grid:
        X, Y = np.array([d["x"] for d in D]), np.array(Y)
    elif k == "latgraph":
        X = [(d["x"], d["edges"]) for d in D]
    elif k == "latnode":
        X = [(d["x"], d["edges"], d["n_hidden"]) for d in D]
    else:
        X = [(d["x"], d["edges"], d["ef"], d["n_hidden"]) for d in D]
    if k == "latgraph":
        model = M.LatentGraphCRF(n_states_per_label=list(c["spl"]))
    elif k == "latgrid":
        model = M.LatentGridCRF(n_states_per_label=list(c["spl"]))
    elif k == "latdgrid":
        model = M.LatentDirectionalGridCRF(n_states_per_label=list(c["spl"]))
    elif k == "latnode":
        model = M.LatentNodeCRF(n_hidden_states=c["nh"],
                                latent_node_features=D[0]["lnf"])
    else:
        model = M.EdgeFeatureLatentNodeCRF(
            n_labels=nl, n_features=F, n_hidden_states=c["nh"],
            latent_node_features=D[0]["lnf"])
    model.initialize(X, Y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", ConvergenceWarning)
        warnings.simplefilter("ignore", FutureWarning)
        H = model.init_latent(X, Y)
    check(len(H) == len(D), "init_latent: %d samples for %d", len(H), len(D))
    S = sum(c["spl"]) if not node else nl + c["nh"]
    for d, y, h in zip(D, Y, H):
        h = np.asarray(h)
        check(h.dtype.kind == "i", "init_latent dtype %s", h.dtype)
        if node:
            check(h.shape == (len(y) + d["n_hidden"],), "init_latent shape "
                  "%r", h.shape)
            check(np.array_equal(h[:len(y)], y), "init_latent: visible %s "
                  "for labels %s", h[:len(y)].tolist(), y.tolist())
            hid = h[len(y):]
            check((hid >= nl).all() and (hid < S).all(), "init_latent: "
                  "hidden states %s, allowed %d..%d", hid.tolist(), nl, S - 1)
        else:
            check(h.shape == y.shape, "init_latent shape %r", h.shape)
            check(h.min() >= 0 and h.max() < S, "init_latent: states %s",
                  h.tolist())
            lab = np.repeat(np.arange(nl), c["spl"])
            check(np.array_equal(lab[h], y), "init_latent %s for labels %s "
                  "(states per label %s)", h.tolist(), y.tolist(), c["spl"])
        check(np.array_equal(model.label_from_latent(h), y),
              "label_from_latent(init_latent) %s, labels %s",
              model.label_from_latent(h).tolist(), y.tolist())
        model.joint_feature(X[0] if False else
                            [q for q, dd in zip(X, D) if dd is d][0], h)
    used = set(int(v) for h in H for v in np.ravel(h))
    note(len(used) > nl, kind=k, spl=str(c["spl"]))


LEGS = []
for k in zoo.LATENT:
    LEGS.append(Leg("latent_" + k, case(k, True), fn, quick=900,
                    rule="several completions, other labels preferred"))
    LEGS.append(Leg("latent_loopy_" + k, case(k, False), fn, quick=350,
                    rule="several completions, other labels preferred"))
    LEGS.append(Leg("init_" + k, icase(k), finit, quick=120,
                    rule="more latent states in use than labels"))
