"""The energy identity dot(w, joint_feature(x, y)) == unary + pairwise score,
and per-weight attribution of joint features, against zoo's independent
reading of the documented layout."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close


def nontrivial(c, prob, y):
    U, E, P = prob
    return len(E) > 0 and any(np.any(p != 0) for p in P) and \
        (len(set(map(int, y))) > 1 or c.get("S") == 1)


def identity(c):
    model = zoo.make_model(c)
    x = zoo.get_x(c)
    y = np.asarray(c["y"])
    prob = zoo.problem(c)
    k = zoo.wsize(c)
    jf = np.asarray(model.joint_feature(x, zoo.to_model(c, y)))
    check(jf.shape == (k,), "joint feature has shape %r, documented size %d",
          jf.shape, k)
    check(model.size_joint_feature == k,
          "size_joint_feature is %r, documented size %d",
          model.size_joint_feature, k)
    s = ref.score(prob, y)
    sc = ref.magnitude(prob) + float(np.abs(c["w"]) @ np.abs(jf))
    got = float(np.dot(c["w"], jf))
    check(close(got, s, sc), "w.joint_feature = %r but the documented score "
          "is %r (y=%s)", got, s, y.tolist())
    # the same identity on the weight axes: the joint feature is the gradient
    # of the score, coordinate by coordinate
    probe = (np.arange(min(k, 12)) * (k // 12 + 1) + c.get("off", 0)) % k
    for i in probe:
        e = np.zeros(k)
        e[i] = 1.0
        s = ref.score(zoo.problem(c, e), y)
        check(close(float(jf[i]), s, 1.0 + float(np.abs(jf).max())),
              "joint feature coordinate %d is %r, documented %r", i,
              float(jf[i]), s)
    note(nontrivial(c, prob, y), kind=c["kind"])


def _strategy(kind):
    @st.composite
    def s(draw):
        c = zoo.draw_case(draw, kind, cap=10 ** 9, max_nodes=9,
                          max_states=5)
        c["off"] = draw(st.integers(0, 40))
        return c
    return s()


def identity_legs(kinds, quick):
    return [Leg("identity_" + k, _strategy(k), identity, quick=quick,
                rule="an edge with non-zero score and two distinct states")
            for k in kinds]


def grid_leg(name, kinds, quick):
    """Count each neighbour pair exactly once: with unit pairwise weight on
    (s, t) the score counts the neighbour pairs labelled (s, t)."""
    @st.composite
    def s(draw):
        H, W = draw(st.integers(1, 7)), draw(st.integers(1, 7))
        return dict(kind=draw(st.sampled_from(kinds)), shape=[H, W],
                    nbh=draw(st.sampled_from([4, 8])), S=3, F=1,
                    n=H * W, x=gen.arr(draw, (H, W, 1), "quarter"),
                    y=gen.ints(draw, H * W, 3))

    def fn(c):
        c["w"] = np.zeros(zoo.wsize(c))
        model = zoo.make_model(c)
        H, W = c["shape"]
        Y = np.asarray(c["y"]).reshape(H, W)
        jf = np.asarray(model.joint_feature(zoo.get_x(c), Y))
        pw = jf[3:]
        # neighbour pairs, found by distance
        offs = [(0, 1), (1, 0)] + ([(1, 1), (1, -1)] if c["nbh"] == 8 else [])
        cnt = np.zeros((3, 3))
        pairs = 0
        for r in range(H):
            for q in range(W):
                for dr, dq in offs:
                    a, b = r + dr, q + dq
                    if 0 <= a < H and 0 <= b < W:
                        cnt[Y[r, q], Y[a, b]] += 1
                        pairs += 1
        if c["kind"] == "grid":
            low = [cnt[i, j] + (cnt[j, i] if i != j else 0)
                   for i in range(3) for j in range(i + 1)]
            check(np.allclose(pw, low), "pair counts %s, expected %s",
                  pw.tolist(), low)
        else:
            tot = pw.reshape(-1, 3, 3).sum(axis=0)
            check(np.allclose(tot + tot.T, cnt + cnt.T),
                  "pair counts %s, expected %s", tot.tolist(), cnt.tolist())
        un = np.array([np.sum(c["x"][..., 0][Y == s]) for s in range(3)])
        check(np.allclose(jf[:3], un), "unary features wrong")
        note(pairs > 0 and len(np.unique(Y)) > 1, nbh=c["nbh"])
    return Leg(name, s(), fn, quick=quick,
               rule="at least one neighbour pair and two labels")
