import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .c13 import same
from .learn import learners

RULE = ("cases: potentials or model instance, 1-3 hard constraints; "
        "non-trivial: the unconstrained optimum violates a constraint and a "
        "satisfying labelling exists, or none does")
ASSUMPTIONS = ["operators read as in AD3: XOR exactly one, ATMOSTONE, OR at "
               "least one, XOROUT/OROUT/ANDOUT last = exactly-one/or/and of "
               "the others (XOROUT: others at most one), IMPLY others imply "
               "the last",
               "problems the AD3 library itself leaves fractional or unsolved "
               "are excused from optimality", "energies to 1e-6"]
OPS = ["XOR", "XOROUT", "ATMOSTONE", "OR", "OROUT", "ANDOUT", "IMPLY"]


def sat(op, t):
    s, o, i = sum(t), t[-1], sum(t[:-1])
    k = len(t) - 1
    return {"XOR": s == 1, "ATMOSTONE": s <= 1, "OR": s >= 1,
            "XOROUT": i == o, "OROUT": o == int(i >= 1),
            "ANDOUT": o == int(i == k), "IMPLY": i < k or o == 1}[op]


def satisfied(cons, labs):
    ok = np.ones(len(labs), dtype=bool)
    for op, nodes, states, neg, _ in cons:
        T = np.array([[int((l[a] == s) != bool(g)) for a, s, g in
                       zip(nodes, states, neg)] for l in labs])
        ok &= np.array([sat(op, list(t)) for t in T.tolist()])
    return ok


def draw_cons(draw, sizes, types=None, lo=1, hi=3):
    """[op, nodes, states, negated, final?]; nodes sorted by type when types
    are given."""
    n = len(sizes)
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        op = draw(st.sampled_from(OPS))
        k = draw(st.integers(min(2, n), min(4, n))) if n > 1 else 1
        if n == 1:
            op = draw(st.sampled_from(["XOR", "OR", "ATMOSTONE"]))
        nodes = [int(v) for v in gen.perm(draw, n)[:k]]
        # (AD3 ignores a final node of the first type: not pystruct's doing)
        final = bool(types is not None and k > 1 and types[nodes[-1]] > 0 and
                     draw(st.booleans()))
        if types is not None:
            head = nodes[:-1] if final else nodes
            head = sorted(head, key=lambda a: types[a])
            nodes = head + (nodes[-1:] if final else [])
        v = gen.ints(draw, k, 256)
        states = [int(v[j]) % sizes[nodes[j]] for j in range(k)]
        if draw(st.booleans()):
            b = draw(st.booleans())
            neg = [b] * k
        else:
            neg = [bool(x) for x in gen.ints(draw, k, 2)]
        out.append([op, nodes, states, neg, final])
    return out


def bnb_safe(sizes, n_edges, cons):
    """AD3's branch and bound crashes (in the C++ library) when nothing is
    left to branch on in an infeasible problem; these inputs are solved
    without it."""
    return (len(sizes) > 1 and min(sizes) > 1 and
            (n_edges > 0 or len(cons) <= 1))


def simple_form(cons, scalar):
    out = []
    for op, nodes, states, neg, _ in cons:
        s, g = list(states), list(neg)
        if scalar and len(set(s)) == 1:
            s = s[0]
        if scalar and len(set(g)) == 1:
            g = g[0]
        out.append((op, list(nodes), s, g))
    return out


def typed_form(cons, ns, scalar):
    off = np.concatenate([[0], np.cumsum(ns)])
    ty = [t for t, n in enumerate(ns) for _ in range(n)]
    out = []
    for op, nodes, states, neg, final in cons:
        k = len(nodes) - 1 if final else len(nodes)
        N, S, G = [], [], []
        for t in range(len(ns)):
            idx = [j for j in range(k) if ty[nodes[j]] == t]
            N.append([int(nodes[j] - off[t]) for j in idx])
            s = [int(states[j]) for j in idx]
            g = [bool(neg[j]) for j in idx]
            if scalar and s and len(set(s)) == 1:
                s = s[0]
            if scalar and g and len(set(g)) == 1:
                g = g[0]
            S.append(s)
            G.append(g)
        tup = (op, N, S, G)
        if final:
            a = nodes[-1]
            tup += ((int(ty[a]), int(a - off[ty[a]]), int(states[-1]),
                     bool(neg[-1])),)
        out.append(tup)
    return out


def library(u, e, p, cons, exact):
    import ad3
    r = ad3.general_constrained_graph(u, e, p, cons, verbose=0,
                                      n_iterations=4000, exact=exact)
    return r[3]


def judge(prob, cons, y, what, status, energy=None):
    """y (local) must satisfy cons and be optimal among those that do."""
    labs = ref.all_labelings([len(u) for u in prob[0]])
    ok = satisfied(cons, labs)
    s = ref.score(prob, y)
    sc = ref.magnitude(prob)
    good = satisfied(cons, [list(y)])[0]
    best = ref.all_scores(prob, labs)[ok].max() if ok.any() else None
    if status() in ("fractional", "unsolved"):
        note(False, "library gave up")
        return ok, None
    check(good, "%s returned %s, which violates %s (%d labellings satisfy "
          "all)", what, list(y), cons, int(ok.sum()))
    check(abs(s - best) <= 1e-6 * sc, "%s returned %s of score %r, the best "
          "satisfying labelling has %r", what, list(y), s, best)
    if energy is not None:
        check(close(-energy, s, sc, 1e-6), "%s: energy %r, score %r", what,
              float(energy), s)
    return ok, best


def unconstrained_violates(prob, cons):
    labs = ref.all_labelings([len(u) for u in prob[0]])
    s = ref.all_scores(prob, labs)
    return not satisfied(cons, labs[s >= s.max() - 1e-9]).any()


# ------------------------------------------------------------------ dispatch
@st.composite
def dcase(draw):
    S = draw(st.integers(1, 3))
    n = draw(st.integers(1, 5))
    E = gen.graph(draw, n)
    p = draw(gen.profiles(["tie", "unit", "small", "quarter"]))
    c = dict(U=gen.arr(draw, (n, S), p), E=E,
             P=gen.arr(draw, (len(E), S, S), p),
             cons=draw_cons(draw, [S] * n), scalar=draw(st.booleans()),
             bnb=draw(st.booleans()), astuple=draw(st.booleans()))
    c["bnb"] = c["bnb"] and bnb_safe([S] * n, len(E), c["cons"])
    return c


def f_dispatch(c):
    from pystruct.inference import inference_dispatch, InferenceException
    U, E, P, cons = c["U"], c["E"], c["P"], c["cons"]
    prob = (list(U), [tuple(e) for e in E], list(P))
    form = simple_form(cons, c["scalar"])
    bnb = c["bnb"]

    def status():
        return library(U.copy(), E.copy(), P.copy(),
                       simple_form(cons, False), bnb)

    def go(**kw):
        if c["astuple"]:
            m = ("ad3+", dict(branch_and_bound=bnb, constraints=form))
            return inference_dispatch(U.copy(), P.copy(), E.copy(), m, **kw)
        return inference_dispatch(U.copy(), P.copy(), E.copy(), "ad3+",
                                  branch_and_bound=bnb, constraints=form,
                                  **kw)
    labs = ref.all_labelings([U.shape[1]] * len(U))
    ok = satisfied(cons, labs)
    raised = False
    try:
        y, en = go(inference_exception=True, return_energy=True)
    except InferenceException as e:
        raised = True
        check(str(e) in ("fractional", "unsolved"), "the exception says %r",
              str(e))
        check(status() in ("fractional", "unsolved"), "an inference "
              "exception although the problem is solved")
    else:
        check(np.shape(y) == (len(U),), "labels of shape %r", np.shape(y))
        check(ok.any() or status() not in ("fractional", "unsolved"),
              "no labelling satisfies %s but no exception was raised", cons)
        judge(prob, cons, [int(v) for v in y], "inference_dispatch", status,
              en)
    check(raised or ok.any(), "unsatisfiable constraints, requested "
          "exception not raised")
    # not requested: a labelling or marginals, never an exception
    y2 = go()
    check(not isinstance(y2, tuple) and np.shape(y2) == (len(U),),
          "no labelling: %r", y2)
    r = go(relaxed=True)
    if raised:
        check(isinstance(r, tuple), "relaxed=True returned a labelling "
              "although the solver isn't done")
    elif isinstance(r, tuple):
        check(False, "relaxed marginals although the solution is integral")
    else:
        judge(prob, cons, [int(v) for v in r], "relaxed inference", status)
        check(np.array_equal(r, y) and np.array_equal(y2, y),
              "results differ between options")
    note(not ok.any() or (ok.any() and unconstrained_violates(prob, cons)
                          and not raised),
         *["op=" + k[0] for k in cons], raised=raised, sat=bool(ok.any()),
         bnb=bnb)


# ---------------------------------------------------------------- no constraint
def f_none(c):
    from pystruct.inference import inference_dispatch
    U, E, P = c["U"], c["E"], c["P"]
    m = ("ad3+", {"branch_and_bound": c["bnb"]})
    for relaxed in (False, True):
        base = inference_dispatch(U, P, E, m, relaxed=relaxed)
        for cons in (None, []):
            r = inference_dispatch(U, P, E, m, relaxed=relaxed,
                                   constraints=cons)
            check(type(r) == type(base) and all(
                np.allclose(a, b) for a, b in zip(r, base)),
                "constraints=%r changes the result", cons)
    if c["bnb"]:
        r = inference_dispatch(U, P, E, m)
        r3 = inference_dispatch(U, P, E, ("ad3", {"branch_and_bound": True}))
        prob = (list(U), [tuple(e) for e in E], list(P))
        best = ref.brute_max(prob)
        if abs(ref.score(prob, r) - best) > 1e-6 * ref.magnitude(prob):
            st_ = library(U.copy(), E.copy(), P.copy(), None, True)
            check(st_ in ("fractional", "unsolved"),
                  "unconstrained ad3+ has score %r, optimum %r (ad3: %s)",
                  ref.score(prob, r), best, np.asarray(r3).tolist())
    note(len(E) > 0 and bool(np.ptp(P) > 0 if P.size else 0))


# -------------------------------------------------------------------- models
@st.composite
def mcase(draw, kind):
    c = zoo.draw_case(draw, kind, cap=200, max_nodes=5, project=True,
                      profs=["tie", "unit", "small", "quarter"],
                      wprofs=["tie", "unit", "small"])
    sizes = [len(a) for a in zoo.allowed(c)]
    ty = None
    if kind == "typed":
        ty = [t for t, n in enumerate(c["ns"]) for _ in range(n)]
    cons = draw_cons(draw, sizes, ty)
    return dict(c=c, cons=cons, scalar=draw(st.booleans()),
                bnb=draw(st.booleans()) and
                bnb_safe(sizes, len(zoo.problem(c)[1]), cons),
                exc=draw(st.booleans()))


def typed_arrays(c, prob):
    """AD3's typed form of the reference problem."""
    U, E, P = prob
    T = c["T"]
    us, es, ps, k = [], [], [], 0
    i = 0
    for t in range(T):
        us.append(np.array(U[i:i + c["ns"][t]], dtype=float).reshape(
            c["ns"][t], c["Ss"][t]))
        i += c["ns"][t]
    for p in range(T * T):
        m = len(c["E"][p])
        es.append(np.array(c["E"][p], dtype=int).reshape(-1, 2))
        ps.append(np.array(P[k:k + m], dtype=float).reshape(
            m, c["Ss"][p // T], c["Ss"][p % T]))
        k += m
    return us, es, ps


def f_model(m):
    from pystruct.inference import InferenceException
    c, cons, bnb = m["c"], m["cons"], m["bnb"]
    typed = c["kind"] == "typed"
    model = zoo.make_model(c, ("ad3+", {"branch_and_bound": bnb}))
    prob = zoo.problem(c)
    form = (typed_form(cons, c["ns"], m["scalar"]) if typed else
            simple_form(cons, m["scalar"]))

    def status():
        if typed:
            a = typed_arrays(c, prob)
            return library(a[0], a[1], a[2],
                           typed_form(cons, c["ns"], False), bnb)
        S = c["S"]
        return library(np.array(prob[0], dtype=float),
                       np.array(prob[1], dtype=int).reshape(-1, 2),
                       np.array(prob[2], dtype=float).reshape(-1, S, S),
                       simple_form(cons, False), bnb)
    x, w = zoo.get_x(c), np.array(c["w"], dtype=float)
    labs = ref.all_labelings([len(u) for u in prob[0]])
    ok = satisfied(cons, labs)
    raised = False
    if typed and m["exc"]:
        model.setInferenceException(True)
    try:
        y, en = model.inference(x, w, return_energy=True, constraints=form)
        if not (c["kind"] in zoo.GRIDS):
            y = np.asarray(y)
    except InferenceException as e:
        check(typed and m["exc"], "an exception nobody asked for")
        raised = True
        check(status() in ("fractional", "unsolved"), "exception %r although "
              "the problem is solved", str(e))
    else:
        if typed and m["exc"]:
            check(ok.any(), "unsatisfiable constraints, requested exception "
                  "not raised")
        yl = zoo.from_model(c, y, "constrained inference")
        judge(prob, cons, yl.tolist(), "inference(constraints)", status, en)
    if typed and m["exc"]:
        model.setInferenceException(False)
        y = model.inference(x, w, constraints=form)   # does not raise
        zoo.from_model(c, y, "inference")
        if raised:
            model.setInferenceException(True)
            try:
                # without constraints this one may be easy
                model.inference(x, w)
            except InferenceException:
                pass
            model.setInferenceException(False)
    # batches, and relaxed inference: fractional results are not rounded
    rs = model.inference(x, w, relaxed=True, constraints=form)
    plain = model.inference(x, w, relaxed=True)
    for kw, one, two in (
            ({"relaxed": True}, rs, plain),
            ({}, model.inference(x, w, constraints=form),
             model.inference(x, w))):
        got = model.batch_inference([x, x], w, constraints=[form, None], **kw)
        check(len(got) == 2 and same(got[0], one) and same(got[1], two),
              "batch_inference(%s) with constraints: %s, per sample %s", kw,
              got, [one, two])
    if status() in ("fractional", "unsolved"):
        check(isinstance(rs, tuple) and len(rs) == 2, "relaxed inference of a "
              "problem the solver left fractional returned %s", rs)
    else:
        check(not isinstance(rs, tuple), "marginals of an integral solution")
    # constraints of one call do not linger
    if bnb:
        y = model.inference(x, w)
        yl = zoo.from_model(c, y, "inference")
        if ref.score(prob, yl) < ref.brute_max(prob) - 1e-6 * \
                ref.magnitude(prob):
            from .infer import solver_fails
            check(solver_fails(prob, True), "constraints linger: inference "
                  "without constraints is not optimal afterwards")
    note(not ok.any() or (unconstrained_violates(prob, cons) and not raised),
         kind=c["kind"], raised=raised, sat=bool(ok.any()),
         final=any(k[4] for k in cons))


# ------------------------------------------------------------------- predict
@st.composite
def pcase(draw):
    kind = draw(st.sampled_from(["edge", "typed", "typed"]))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=100, max_nodes=4, project=True,
                         profs=["tie", "unit", "small", "quarter"])
    cons, bnb = [], True
    for d in D:
        sizes = [len(a) for a in zoo.allowed(d)]
        ty = None
        if kind == "typed":
            ty = [t for t, n in enumerate(d["ns"]) for _ in range(n)]
        cons.append(draw_cons(draw, sizes, ty, lo=0, hi=2))
        bnb = bnb and bnb_safe(sizes, len(zoo.problem(d)[1]), cons[-1])
    return dict(D=D, cons=cons, bnb=bnb, none=draw(st.booleans()),
                n_jobs=2 if draw(st.integers(0, 4)) == 0 else 1,
                learner=draw(st.sampled_from(["subgradient", "oneslack",
                                              "nslack", "frankwolfe"])))


def f_predict(m):
    import joblib
    D, cons = m["D"], m["cons"]
    typed = D[0]["kind"] == "typed"
    model = zoo.make_model(D[0], ("ad3+", {"branch_and_bound": m["bnb"]}))
    lr = learners()[m["learner"]](model, n_jobs=m["n_jobs"])
    lr.w = np.array(D[0]["w"], dtype=float)
    X, Y = zoo.get_XY(D)
    forms = [typed_form(k, d["ns"], False) if typed else
             simple_form(k, False) for d, k in zip(D, cons)]
    forms = [None if (m["none"] and not f) else f for f in forms]
    with joblib.parallel_backend("threading"):
        pred = lr.predict(X, forms)
    check(len(pred) == len(D), "%d predictions for %d samples", len(pred),
          len(D))
    nt = False
    for d, k, y in zip(D, cons, pred):
        prob = zoo.problem(d, D[0]["w"])
        yl = zoo.from_model(d, y, "prediction")

        def status():
            if typed:
                a = typed_arrays(d, prob)
                return library(a[0], a[1], a[2],
                               typed_form(k, d["ns"], False) or None, m["bnb"])
            S = d["S"]
            return library(np.array(prob[0], dtype=float),
                           np.array(prob[1], dtype=int).reshape(-1, 2),
                           np.array(prob[2], dtype=float).reshape(-1, S, S),
                           simple_form(k, False) or None, m["bnb"])
        judge(prob, k, yl.tolist(), "predict", status)
        nt = nt or (len(k) > 0 and unconstrained_violates(prob, k))
    note(nt and len(D) > 1, kind=D[0]["kind"], n_jobs=m["n_jobs"])


LEGS = [
    Leg("dispatch", dcase(), f_dispatch, quick=2500, shards=3,
        rule="constraints exclude the unconstrained optimum or everything"),
    Leg("no_constraints", dcase(), f_none, quick=600,
        rule="an edge with non-constant scores"),
    Leg("predict", pcase(), f_predict, quick=900, shards=2,
        rule="several samples, one with effective constraints"),
] + [Leg("model_" + k, mcase(k), f_model, quick=700 if k == "typed" else 350,
         shards=2 if k == "typed" else 1,
         rule="constraints exclude the unconstrained optimum or everything")
     for k in ("edge", "typed", "multilabel")]
