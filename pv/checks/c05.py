import numpy as np
from hypothesis import strategies as st
from scipy.linalg import block_diag

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close

RULE = ("cases: a model instance plus 1-4 labellings and mixture "
        "coefficients (linear_extension), or plus a relaxed inference method "
        "(reported_energy); non-trivial: >= 2 different labellings with "
        "positive coefficients resp. a fractional result")
ASSUMPTIONS = ["float64; 1e-8 relative; potentials up to ~1e3 for solvers"]
KINDS = zoo.PAIR + zoo.LATENT
ENERGY = ["graph", "chain", "grid", "edge", "dgrid", "multilabel", "typed",
          "latgraph", "latgrid", "latdgrid"]


def mixture(c, ys, lam):
    """Marginals of the mixture in the shapes relaxed inference uses."""
    E = zoo.edges_of(c)
    sizes = [len(u) for u in zoo.problem(c)[0]]
    full = c["S"] if c["kind"] != "typed" else None
    n = len(sizes)
    A = zoo.allowed(c)
    if c["kind"] == "typed":
        off = np.concatenate([[0], np.cumsum(c["ns"])])
        un = []
        for t in range(c["T"]):
            u = np.zeros((c["ns"][t], c["Ss"][t]))
            for y, l in zip(ys, lam):
                for i in range(c["ns"][t]):
                    u[i, y[off[t] + i]] += l
            un.append(u)
        pw = []
        T = c["T"]
        for p, es in enumerate(c["E"]):
            a, b = p // T, p % T
            m = np.zeros((len(es), c["Ss"][a] * c["Ss"][b]))
            for y, l in zip(ys, lam):
                for k, (i, j) in enumerate(es):
                    m[k, y[off[a] + i] * c["Ss"][b] + y[off[b] + j]] += l
            pw.append(m)
        return un, pw
    u = np.zeros((n, full))
    m = np.zeros((len(E), full * full))
    pos = {-1: 0, 1: 1} if c["kind"] == "binary" else None
    assert pos is None
    for y, l in zip(ys, lam):
        s = [int(A[i][y[i]]) for i in range(n)]
        for i in range(n):
            u[i, s[i]] += l
        for k, (a, b) in enumerate(E):
            m[k, s[a] * full + s[b]] += l
    if c["kind"] in zoo.GRIDS:
        u = u.reshape(c["shape"] + [full])
    return u, m


@st.composite
def mixed(draw, kinds):
    c = zoo.draw_case(draw, draw(st.sampled_from(kinds)), cap=10 ** 6,
                      max_nodes=8)
    sizes = [len(u) for u in zoo.problem(c)[0]]
    k = draw(st.integers(1, 4))
    c["ys"] = [np.array([v % s for v, s in zip(gen.ints(draw, len(sizes),
                                                        256), sizes)],
                        dtype=int) for _ in range(k)]
    l = [v + 1 for v in gen.ints(draw, k, 16).tolist()]
    c["lam"] = np.array(l, dtype=float) / sum(l)
    return c


def linear(c):
    model = zoo.make_model(c)
    x = zoo.get_x(c)
    ys, lam = c["ys"], c["lam"]
    tru = zoo.to_model(c, c["y"])
    u, pw = mixture(c, ys, lam)
    jf = np.asarray(model.joint_feature(x, (u, pw)))
    check(jf.shape == (zoo.wsize(c),), "relaxed joint feature has shape %r",
          jf.shape)
    if c["kind"] == "typed":
        # one array each, types (pairs of types) in blocks
        ub, pb = block_diag(*u), block_diag(*pw)
        jb = np.asarray(model.joint_feature(x, (ub, pb)))
        check(np.allclose(jb, jf), "joint feature %s of marginals in arrays, "
              "%s in lists", jb.tolist(), jf.tolist())
    prob = zoo.problem(c)
    # the documented (relaxed) energy, independent of the integral code path
    s = sum(l * ref.score(prob, y) for l, y in zip(lam, ys))
    sc = ref.magnitude(prob) + float(np.abs(c["w"]) @ np.abs(jf))
    check(close(float(np.dot(c["w"], jf)), s, sc, 1e-8), "energy of the "
          "relaxed labelling %r, expected %r", float(np.dot(c["w"], jf)), s)
    want = sum(l * np.asarray(model.joint_feature(x, zoo.to_model(c, y)))
               for l, y in zip(lam, ys))
    check(np.allclose(jf, want, rtol=1e-8, atol=1e-8 *
                      (1 + np.abs(want).max(initial=0))),
          "joint feature of the mixture %s, mixture of joint features %s",
          jf.tolist(), want.tolist())
    L = sum(l * zoo.loss_ref(c, c["y"], y) for l, y in zip(lam, ys))
    a = float(model.loss(tru, (u, pw)))
    b = float(model.continuous_loss(tru, u))
    m = zoo.max_loss_ref(c, c["y"])
    check(close(a, L, m, 1e-8), "loss of the relaxed labelling %r, expected "
          "%r", a, L)
    check(close(a, b, m, 1e-8), "loss %r, continuous loss %r", a, b)
    bl = model.batch_loss([tru, tru], [(u, pw), (u, pw)])
    check(np.allclose(np.asarray(bl, dtype=float), L, rtol=1e-8), "batch "
          "loss %r", bl)
    note(len(ys) > 1 and any(np.any(y != ys[0]) for y in ys), kind=c["kind"])


@st.composite
def energy_case(draw):
    c = zoo.draw_case(draw, draw(st.sampled_from(ENERGY)), cap=4000,
                      max_nodes=7, project=True, profs=gen.PLAIN + ["pos"],
                      min_states=2, max_states=3, graph_kinds=[
                          "general", "cycle", "complete", "complete",
                          "tree", "empty"])
    c["method"] = draw(st.sampled_from(["lp", "ad3", "ad3+"]))
    if c["method"] == "ad3+" and c["kind"] not in ("typed", "edge", "dgrid",
                                                   "multilabel", "latdgrid"):
        c["method"] = "ad3"     # ad3+ wants one matrix per edge
    if c["method"] == "lp" and c["kind"] == "typed":
        c["method"] = "ad3+"
    c["flat"] = draw(st.booleans())
    return c


def energy(c):
    if c["flat"]:
        # weak unaries, so that relaxations become fractional
        c["x"] = ([x * 0.125 for x in c["x"]] if isinstance(c["x"], list)
                  else c["x"] * 0.125)
    model = zoo.make_model(c, c["method"])
    x, w = zoo.get_x(c), np.array(c["w"])
    y = zoo.to_model(c, c["y"])
    prob = zoo.problem(c)
    sc = ref.magnitude(prob) + zoo.max_loss_ref(c, c["y"])
    frac = False
    res, en = model.inference(x, w, relaxed=True, return_energy=True)
    s = float(np.dot(w, model.joint_feature(x, res)))
    tol = 1e-4 if not isinstance(res, tuple) else (
        1e-7 if c["method"] == "lp" else 1e-5)  # AD3 stops at residual 1e-6
    check(close(-en, s, sc, tol), "%s: relaxed energy %r but score %r",
          c["method"], en, s)
    frac |= isinstance(res, tuple)
    res, en = model.loss_augmented_inference(x, y, w, relaxed=True,
                                             return_energy=True)
    s = float(np.dot(w, model.joint_feature(x, res)))
    l = float(model.loss(y, res))
    tol = 1e-4 if not isinstance(res, tuple) else (
        1e-7 if c["method"] == "lp" else 1e-5)
    slack = 0.0
    if isinstance(res, tuple):
        # the solver's marginals sum to one up to its own tolerance, the loss
        # counts the missing mass
        us = res[0] if isinstance(res[0], list) else [res[0]]
        us = [v for u in us for v in u.reshape(-1, u.shape[-1]).sum(axis=1)]
        slack = sum(float(np.max(cw)) * abs(1 - v)
                    for v, cw in zip(us, zoo.label_weights(c)))
    check(abs(-en - s - l) <= slack + tol * sc, "%s: relaxed loss-augmented energy %r "
          "but score %r + loss %r", c["method"], en, s, l)
    frac |= isinstance(res, tuple)
    note(frac, kind=c["kind"], method=c["method"])


LEGS = [Leg("linear_extension_" + k, mixed([k]), linear, quick=400,
            rule="two different labellings in the mixture") for k in KINDS] \
    + [Leg("reported_energy", energy_case(), energy, quick=1600, shards=4,
           rule="relaxed inference returned marginals")]
