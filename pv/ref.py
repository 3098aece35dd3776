"""Reference oracles, written from the documentation, independent of pystruct.

A problem is (U, E, P): U[i] the unary scores of node i's states, E a list of
(a, b), P[e] the (S_a, S_b) pairwise scores.  Nodes may have different numbers
of states.
"""
import numpy as np


def score(prob, y):
    U, E, P = prob
    s = 0.0
    for i, u in enumerate(U):
        s += u[y[i]]
    for (a, b), p in zip(E, P):
        s += p[y[a], y[b]]
    return float(s)


def magnitude(prob):
    U, E, P = prob
    return 1.0 + sum(float(np.max(np.abs(u[np.isfinite(u)])))
                     for u in U if np.isfinite(u).any()) \
        + sum(float(np.abs(p).max()) for p in P if p.size)


def all_labelings(sizes):
    n = int(np.prod(sizes)) if len(sizes) else 1
    idx = np.arange(n)
    out = np.zeros((n, len(sizes)), dtype=int)
    for i in range(len(sizes) - 1, -1, -1):
        out[:, i] = idx % sizes[i]
        idx = idx // sizes[i]
    return out


def all_scores(prob, labs=None):
    U, E, P = prob
    if labs is None:
        labs = all_labelings([len(u) for u in U])
    s = np.zeros(len(labs))
    for i, u in enumerate(U):
        s = s + np.asarray(u)[labs[:, i]]
    for (a, b), p in zip(E, P):
        s = s + np.asarray(p)[labs[:, a], labs[:, b]]
    return s


def brute_max(prob):
    """(best score, number of optimal labelings, gap to the second value)."""
    s = all_scores(prob)
    m = s.max()
    return float(m)


def forest_max(prob):
    """Best score on a forest (parallel edges allowed), by leaf elimination;
    an implementation independent of message-passing order in pystruct."""
    U, E, P = prob
    n = len(U)
    belief = [np.array(u, dtype=float) for u in U]
    pair = {}
    for (a, b), p in zip(E, P):
        a, b = int(a), int(b)
        if a == b:
            belief[a] = belief[a] + np.diag(p)
        elif a < b:
            pair[(a, b)] = pair.get((a, b), 0) + np.asarray(p, float)
        else:
            pair[(b, a)] = pair.get((b, a), 0) + np.asarray(p, float).T
    adj = [dict() for _ in range(n)]
    for (a, b), p in pair.items():
        adj[a][b] = p
        adj[b][a] = p.T
    stack = [i for i in range(n) if len(adj[i]) <= 1]
    done = [False] * n
    total = 0.0
    left = n
    while stack:
        i = stack.pop()
        if done[i]:
            continue
        done[i] = True
        left -= 1
        if not adj[i]:
            total += belief[i].max()
            continue
        (j, p), = adj[i].items()
        belief[j] = belief[j] + (belief[i][:, None] + p).max(axis=0)
        del adj[j][i]
        if len(adj[j]) <= 1:
            stack.append(j)
    if left:
        raise ValueError("reference: not a forest")
    return float(total)


def is_forest(n, E):
    par = list(range(n))

    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]
            i = par[i]
        return i
    for a, b in E:
        a, b = find(int(a)), find(int(b))
        if a == b:
            return False
        par[a] = b
    return True


def components(n, E):
    par = list(range(n))

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    for a, b in E:
        par[find(int(a))] = find(int(b))
    return [find(i) for i in range(n)]


def lp_optimum(prob, solution=False):
    """Max of the local-polytope relaxation, by scipy's HiGHS on an
    independently written (redundant) constraint set; with solution also the
    marginals, nodes then edges."""
    from scipy.optimize import linprog
    from scipy.sparse import lil_matrix
    U, E, P = prob
    off, k = [], 0
    for u in U:
        off.append(k)
        k += len(u)
    eoff = []
    for p in P:
        eoff.append(k)
        k += p.size
    rows = len(U) + sum(sum(p.shape) for p in P)
    A = lil_matrix((rows, k))
    b = np.zeros(rows)
    r = 0
    for i, u in enumerate(U):
        A[r, off[i]:off[i] + len(u)] = 1
        b[r] = 1
        r += 1
    for (a, c), p, o in zip(E, P, eoff):
        sa, sc = p.shape
        for s in range(sa):
            for t in range(sc):
                A[r, o + s * sc + t] = 1
            A[r, off[a] + s] = -1
            r += 1
        for t in range(sc):
            for s in range(sa):
                A[r, o + s * sc + t] = 1
            A[r, off[c] + t] = -1
            r += 1
    c = np.concatenate([np.asarray(u, float).ravel() for u in U]
                       + [np.asarray(p, float).ravel() for p in P])
    res = linprog(-c, A_eq=A.tocsr(), b_eq=b, bounds=(0, None),
                  method="highs")
    if res.status != 0:
        raise RuntimeError("reference LP failed: %s" % res.message)
    if solution:
        return float(-res.fun), np.array(res.x)
    return float(-res.fun)


def flat_potentials(prob):
    """Potentials in the order of lp_optimum's marginals."""
    U, E, P = prob
    return np.concatenate([np.asarray(u, float).ravel() for u in U] +
                          [np.asarray(p, float).ravel() for p in P])


def qp_risk_min(Fs, Ls, C, tol=1e-9, w0=None):
    """min_w 0.5|w|^2 + C sum_i max(0, max_k L_ik - w.F_ik), Fs[i] (K_i, d),
    Ls[i] (K_i,).  Solved by a cutting-plane loop over an explicitly
    enumerated constraint set with a dense dual active-set/coordinate QP;
    returns (upper bound value at w, certified lower bound, w)."""
    d = Fs[0].shape[1]
    n = len(Fs)
    # dual block-coordinate ascent with exact (pairwise) steps
    alphas = [np.zeros(len(l)) for l in Ls]
    w = np.zeros(d)

    def primal(w):
        return 0.5 * w @ w + C * sum(max(0.0, float(np.max(l - F @ w)))
                                     for F, l in zip(Fs, Ls))

    def dual():
        return float(sum(a @ l for a, l in zip(alphas, Ls)) - 0.5 * w @ w)
    best = primal(w)
    bw = w.copy()
    for it in range(20000):
        for i in range(n):
            F, l, a = Fs[i], Ls[i], alphas[i]
            for _ in range(4):
                g = l - F @ w                  # gradient of the dual
                slackvar = C - a.sum()
                up = int(np.argmax(g))
                # most violating pair including the implicit "0" variable
                gu = g[up]
                uidx = up
                if gu < 0:
                    uidx, gu = -1, 0.0
                act = np.where(a > 1e-14)[0]
                lo, gl = -1, 0.0
                have = slackvar > 1e-14
                if not have:
                    gl = np.inf
                if len(act):
                    j = act[np.argmin(g[act])]
                    if g[j] < gl:
                        lo, gl = int(j), g[j]
                if gu - gl <= 1e-13 or uidx == lo:
                    break
                Fu = F[uidx] if uidx >= 0 else 0.0
                Fl = F[lo] if lo >= 0 else 0.0
                dv = Fu - Fl
                q = float(np.dot(dv, dv))
                room = a[lo] if lo >= 0 else slackvar
                step = room if q < 1e-300 else min(room, (gu - gl) / q)
                if uidx >= 0:
                    a[uidx] += step
                if lo >= 0:
                    a[lo] -= step
                    if a[lo] < 1e-15:
                        a[lo] = 0.0
                w = w + step * dv
        if it % 5 == 0:
            w = sum(F.T @ a for F, a in zip(Fs, alphas))
            p = primal(w)
            if p < best:
                best, bw = p, w.copy()
            if best - dual() <= tol * (1 + abs(best)):
                break
    return best, dual(), bw
