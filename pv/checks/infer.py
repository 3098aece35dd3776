"""Judging the result of (loss-augmented) inference by enumeration."""
import numpy as np

from .. import gen, ref, zoo
from ..zoo import check

# AD3's stopping thresholds are absolute; potentials beyond ~1e3 are outside
# what the solver itself resolves (see DESIGN.md), so "big" is left to the
# max-product checks
SOFT = ["tie", "int", "quarter", "float", "sparse", "neg", "pos"]
BNB = ("ad3", {"branch_and_bound": True})
BNBP = ("ad3+", {"branch_and_bound": True})


def labelings(prob):
    return ref.all_labelings([len(u) for u in prob[0]])


def judge(c, prob, res, what, rtol=1e-6, best=None, solver=None):
    """`res` must be a labelling of the model of maximal score in `prob`
    (scores incl. any loss).  With `solver` ("ad3" or "ad3+") problems on which
    that library gives up are excused."""
    y = zoo.from_model(c, res, what)
    s = ref.score(prob, y)
    sc = ref.magnitude(prob)
    if best is None:
        best = ref.brute_max(prob)
    if solver is not None and abs(best - s) > rtol * sc \
            and solver_fails(prob, solver == "ad3+"):
        from ..core import note
        note(False, "AD3 gave up")
        return y, s, s
    check(abs(best - s) <= rtol * sc, "%s returned score %r, the optimum is "
          "%r (labelling %s)", what, s, best, y.tolist())
    return y, s, best


def fine(c):
    return dict(kind=c["kind"])


def solver_fails(prob, plus, exact=True):
    """Whether the AD3 library itself, called with the documented arguments,
    gives up on this problem: some dense frustrated problems end as
    "unsolved" even with branch and bound.  Consulted only when a result is
    not optimal; whether pystruct poses the right problem is not excused."""
    import ad3
    U, E, P = prob
    best = ref.brute_max(prob)
    off = {}
    # one type per node: nodes may have different numbers of states
    n = len(U)
    us = [np.array(u, dtype=float)[None] for u in U]
    es = [np.zeros((0, 2), dtype=int)] * (n * n)
    ps = [np.zeros((0, len(U[a]), len(U[b]))) for a in range(n)
          for b in range(n)]
    enc = []
    if len(set(len(u) for u in U)) == 1:
        u = np.array(U, dtype=float)
        enc.append((u, np.array(E, dtype=int).reshape(-1, 2),
                    np.array(P, dtype=float).reshape(len(E), u.shape[1],
                                                     u.shape[1])))
    for (a, b), q in zip(E, P):
        k = a * n + b
        es[k] = np.concatenate([es[k], [[0, 0]]])
        ps[k] = np.concatenate([ps[k], [q]])
    enc.append((us, es, ps))
    for u, e, p in enc:
        if plus:
            r = ad3.general_constrained_graph(u, e, p, None, exact=exact,
                                              n_iterations=4000)
        else:
            r = ad3.general_graph(u, e, p, n_iterations=4000, exact=exact)
        if r[3] in ("fractional", "unsolved"):
            return True
        y = np.array([int(np.argmax(v)) for v in r[0]])
        if ref.score(prob, y) < best - 1e-6 * ref.magnitude(prob):
            return True
    return False


def judge_energy(prob, en, s, what, rtol=1e-6, solver=None):
    """The reported energy is minus the score of the (integral) result."""
    if not zoo.close(-en, s, ref.magnitude(prob), rtol):
        if solver is not None and solver_fails(prob, solver == "ad3+"):
            from ..core import note
            note(False, "AD3 gave up")
            return
        check(False, "%s: energy %r for a result of score %r", what,
              float(en), s)
