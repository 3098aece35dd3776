"""Learners for the checks that only need them configured, and small convex
training problems with every constraint enumerated."""
import numpy as np

from .. import gen, ref, zoo
from ..zoo import check


def learners(names=None):
    from pystruct import learners as L
    Solver.watch()
    return dict(nslack=L.NSlackSSVM, oneslack=L.OneSlackSSVM,
                subgradient=L.SubgradientSSVM, frankwolfe=L.FrankWolfeSSVM,
                perceptron=L.StructuredPerceptron,
                sublatent=L.SubgradientLatentSSVM, latent=L.LatentSSVM)


def enumerate_program(D, model, observable=False):
    """Per sample the joint-feature differences F (K, d) and losses L (K,) of
    all labellings."""
    Fs, Ls, labs_all = [], [], []
    for c in D:
        sizes = [len(a) for a in zoo.allowed(c)]
        labs = ref.all_labelings(sizes)
        x = zoo.get_x(c)
        y = zoo.to_model(c, c["y"])
        resc = bool(c.get("rescale_C"))
        jf = (lambda v: model.joint_feature(x, v, y)) if resc else \
            (lambda v: model.joint_feature(x, v))
        g = np.asarray(jf(y), dtype=float)
        Fs.append(np.array([g - jf(zoo.to_model(c, l)) for l in labs]))
        Ls.append(np.array([zoo.loss_ref(c, c["y"], l) for l in labs]))
        labs_all.append(labs)
    return Fs, Ls, labs_all


def risk(Fs, Ls, C, w):
    return 0.5 * float(w @ w) + C * sum(
        max(0.0, float(np.max(l - F @ w))) for F, l in zip(Fs, Ls))


class quiet(object):
    """Some learners print at verbose=0."""

    def __enter__(self):
        import os
        import sys
        self.o, self.e = sys.stdout, sys.stderr
        self.f = open(os.devnull, "w")
        sys.stdout = sys.stderr = self.f

    def __exit__(self, *a):
        import sys
        sys.stdout, sys.stderr = self.o, self.e
        self.f.close()


class Solver(object):
    """Notes how cvxopt's last quadratic program ended."""
    status = None

    @classmethod
    def watch(cls):
        import cvxopt.solvers
        real = cvxopt.solvers.qp
        if getattr(real, "watched", False):
            return

        def qp(*a, **k):
            cls.status = "error"
            r = real(*a, **k)
            cls.status = r["status"]
            return r
        qp.watched = True
        cvxopt.solvers.qp = qp


def qp_gave_up(e):
    """cvxopt's interior point method ended without an optimal status (badly
    scaled kernel matrices); pystruct says so and stops."""
    return isinstance(e, ValueError) and "QP solver failed" in str(e) and \
        Solver.status != "optimal"


def fit(lr, X, Y, **kw):
    """fit; False when cvxopt gave up."""
    import joblib
    with quiet():
        try:
            with joblib.parallel_backend("threading"):
                r = lr.fit(X, Y, **kw)
        except ValueError as e:
            if not qp_gave_up(e):
                raise
            from ..core import note
            note(False, "QP solver gave up")
            return False
    check(r is lr, "fit returned %r", type(r))
    return True


# ------------------------------------------------- convex training problems
TRAIN_PROFILES = ["tie", "unit", "small"]
TRAIN_KINDS = ["graph", "chain", "grid", "edge", "multilabel", "multiclass",
               "binary"]


def draw_train(draw, kinds, exact=False, n_max=4, cap=60, n_min=1):
    """A dataset, a C and (for pairwise models) an exact inference method:
    max-product on forests or AD3 with branch and bound on any graph."""
    from hypothesis import strategies as st
    kind = draw(st.sampled_from(kinds))
    D = zoo.draw_dataset(draw, kind, n_min, n_max, cap=cap, max_nodes=4,
                         project=True, profs=TRAIN_PROFILES, min_states=2,
                         graph_kinds=None if exact else gen.FOREST_KINDS)
    if kind == "multiclass" and D[0].get("cw") is not None:
        r = draw(st.booleans())
        for d in D:
            d["rescale_C"] = r
    return dict(D=D, exact=bool(exact),
                C=draw(st.sampled_from([1.0, 0.1, 0.01, 10.0])))


def method_of(c):
    if c["D"][0]["kind"] in zoo.SINGLE:
        return None
    return ("ad3", {"branch_and_bound": True}) if c["exact"] \
        else "max-product"


class Program(object):
    """The training problem with every constraint listed."""

    def __init__(self, c):
        self.D, self.C = c["D"], c["C"]
        self.model = zoo.make_model(self.D[0], method_of(c))
        self.Fs, self.Ls, self.labs = enumerate_program(self.D, self.model)
        self.X, self.Y = zoo.get_XY(self.D)
        self.n = len(self.D)
        self.R = max(float(np.sqrt((F ** 2).sum(1)).max()) for F in self.Fs)
        self._opt = None

    def opt(self):
        """(upper, lower) bound on the smallest regularised risk."""
        if self._opt is None:
            p, d, w = ref.qp_risk_min(self.Fs, self.Ls, self.C)
            self._opt = (p, d)
            self._best = w
        return self._opt

    def best(self):
        self.opt()
        return self._best

    def diameters(self):
        return [float(np.sqrt(max(((F - f) ** 2).sum(1).max() for f in F)))
                for F in self.Fs]

    def risk(self, w):
        return risk(self.Fs, self.Ls, self.C, np.asarray(w, dtype=float))

    def grain(self, w):
        """How far inexact inference may be off in the risk."""
        return 0.0

    def slacks(self, w):
        return [max(0.0, float(np.max(l - F @ w)))
                for F, l in zip(self.Fs, self.Ls)]

    def nontrivial(self):
        return any(float(l.max()) > 0 for l in self.Ls) and self.R > 0

    def ad3_fails(self, w):
        """Whether AD3 gave up on some loss-augmented problem at w."""
        from .infer import solver_fails
        for d in self.D:
            p = zoo.augmented(d, zoo.problem(d, w), d["y"])
            if solver_fails(p, False):
                return True
        return False


class RelaxedProgram(object):
    """The training problem over the local polytope: joint features and
    losses extend linearly to marginals, separation is a linear program
    (HiGHS), the optimum is bracketed by a cutting-plane loop."""

    def __init__(self, c):
        self.D, self.C = c["D"], c["C"]
        self.n = len(self.D)
        self.model = zoo.make_model(self.D[0], c["method"])
        self.X, self.Y = zoo.get_XY(self.D)
        d = zoo.wsize(self.D[0])
        self.A, self.g, self.loss_, self.zero, R2 = [], [], [], [], 0.0
        self.diam_ = []
        for D in self.D:
            sizes = [len(a) for a in zoo.allowed(D)]
            cols = []
            for j in range(d):
                e = np.zeros(d)
                e[j] = 1.0
                cols.append(ref.flat_potentials(
                    zoo.problem(D, zoo.project_w(D, e))))
            A = np.array(cols)                       # d x marginals
            zero = zoo.problem(D, np.zeros(d))
            self.A.append(A)
            self.zero.append(zero)
            self.g.append(A @ self.one_hot(zero, D["y"]))
            aug = ref.flat_potentials(zoo.augmented(D, zero, D["y"]))
            self.loss_.append(aug - ref.flat_potentials(zero))
            rng, k = np.zeros(d), 0
            for m in sizes + [sizes[a] * sizes[b] for a, b in zero[1]]:
                B = A[:, k:k + m]
                rng += B.max(1) - B.min(1)
                k += m
            self.diam_.append(float(np.linalg.norm(rng)))
        self.Fs = [np.zeros((1, d))]                 # for its width
        self.R = max(self.diam_)
        self._opt = None

    @staticmethod
    def one_hot(prob, y):
        U, E, P = prob
        out = []
        for u, v in zip(U, y):
            e = np.zeros(len(u))
            e[v] = 1
            out.append(e)
        for (a, b), p in zip(E, P):
            e = np.zeros(p.shape)
            e[y[a], y[b]] = 1
            out.append(e.ravel())
        return np.concatenate(out)

    def diameters(self):
        return self.diam_

    def worst(self, i, w):
        """Largest loss + score - score of the truth, and its marginals."""
        D = self.D[i]
        p = zoo.augmented(D, zoo.problem(D, w), D["y"])
        v, mu = ref.lp_optimum(p, True)
        return v - float(w @ self.g[i]), mu

    def grain(self, w):
        return 3e-6 * self.C * sum(
            1 + ref.magnitude(zoo.augmented(D, zoo.problem(D, w), D["y"]))
            for D in self.D)

    def pair(self, i, mu):
        return self.g[i] - self.A[i] @ mu, float(self.loss_[i] @ mu)

    def slacks(self, w):
        return [max(0.0, self.worst(i, w)[0]) for i in range(self.n)]

    def risk(self, w):
        w = np.asarray(w, dtype=float)
        return 0.5 * float(w @ w) + self.C * sum(self.slacks(w))

    def opt(self):
        if self._opt is None:
            d = self.A[0].shape[0]
            Fs = [np.zeros((0, d)) for _ in self.D]
            Ls = [np.zeros(0) for _ in self.D]
            w = np.zeros(d)
            up, lo, bw = np.inf, 0.0, w
            for it in range(200):
                r = 0.5 * float(w @ w)
                for i in range(self.n):
                    s, mu = self.worst(i, w)
                    r += self.C * max(0.0, s)
                    F, L = self.pair(i, mu)
                    Fs[i] = np.vstack([Fs[i], F])
                    Ls[i] = np.append(Ls[i], L)
                if r < up:
                    up, bw = r, w
                if up - lo <= 1e-8 * (1 + up):
                    break
                _, dual, w = ref.qp_risk_min(Fs, Ls, self.C)
                lo = max(lo, dual)
            # the reference LP is good to about 1e-7
            e = 1e-6 * (1 + up) if up - lo > 1e-8 * (1 + up) else 0.0
            self._opt, self._best = (up, lo - e), bw
        return self._opt

    def best(self):
        self.opt()
        return self._best

    def watch(self):
        """Remember the weights of every loss-augmented inference."""
        ws = []
        real = self.model.loss_augmented_inference

        def record(x, y, w, *a, **k):
            if not ws or not np.array_equal(ws[-1], w):
                ws.append(np.array(w, dtype=float))
            return real(x, y, w, *a, **k)
        self.model.loss_augmented_inference = record
        return ws

    def ad3_fails(self, w):
        """Whether the AD3 library falls short of the relaxed optimum of some
        loss-augmented problem at w."""
        if self.model.inference_method == "lp":
            return False
        for D in self.D:
            prob = zoo.augmented(D, zoo.problem(D, w), D["y"])
            best = ref.lp_optimum(prob)
            v, off = ad3_relaxed(prob)
            if abs(v - best) > 1e-6 * ref.magnitude(prob) or off > 1e-5:
                return True
        return False


def ad3_relaxed(prob):
    """The relaxed solution the library itself finds: its value and how far
    its marginals are from consistent."""
    import ad3
    U, E, P = prob
    n = len(U)
    if len(set(len(u) for u in U)) == 1:
        u = np.array(U, dtype=float)
        r = ad3.general_graph(u, np.array(E, dtype=int).reshape(-1, 2),
                              np.array(P, dtype=float).reshape(
                                  len(E), u.shape[1], u.shape[1]),
                              n_iterations=4000, exact=False)
        mu = list(np.asarray(r[0]).reshape(u.shape))
        me = [np.asarray(m).reshape(p.shape) for m, p in zip(r[1], P)]
    else:
        us = [np.array(u, dtype=float)[None] for u in U]
        es = [np.zeros((0, 2), dtype=int)] * (n * n)
        ps = [np.zeros((0, len(U[a]), len(U[b]))) for a in range(n)
              for b in range(n)]
        at = []
        for (a, b), q in zip(E, P):
            k = a * n + b
            at.append((k, len(es[k])))
            es[k] = np.concatenate([es[k], [[0, 0]]])
            ps[k] = np.concatenate([ps[k], [q]])
        r = ad3.general_graph(us, es, ps, n_iterations=4000, exact=False)
        mu = [np.asarray(m)[0] for m in r[0]]
        me = [np.asarray(r[1][k])[i].reshape(p.shape)
              for (k, i), p in zip(at, P)]
    v = sum(float((m * np.asarray(u)).sum()) for m, u in zip(mu, U)) + \
        sum(float((m * p).sum()) for m, p in zip(me, P))
    off = max([abs(m.sum() - 1) for m in mu] +
              [np.abs(m.sum(1) - mu[a]).max() for m, (a, b) in zip(me, E)] +
              [np.abs(m.sum(0) - mu[b]).max() for m, (a, b) in zip(me, E)])
    return v, float(off)
