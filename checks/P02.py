"""A KDTree, after any history of additions, answers every query as exhaustive search over all points added so far."""
from checks.common import *
from checks.P01 import dmat, METRICS
from polars_ds.spatial import KDTree

U32MAX = 2**32 - 1


def points(spec, d):
    """spec: [seed, n, kind]"""
    seed, n, kind = spec
    g = rng(seed)
    if kind == "grid":
        return g.integers(-3, 4, (n, d)).astype(float)
    if kind == "same":
        return np.repeat(g.integers(-3, 4, (1, d)).astype(float), n, 0)
    if kind == "line":
        return np.arange(n)[:, None] * np.ones((1, d)) * 0.25 + g.integers(0, 3)
    if kind == "mono":
        return np.sort(g.normal(size=(n, d)), axis=0)
    if kind == "far":
        return g.normal(size=(n, d)) * 0.5 + g.choice([-40, 40])
    if kind == "const":
        X = g.normal(size=(n, d))
        X[:, 0] = 0.5
        return X
    return g.normal(size=(n, d)) * 2


kinds = st.sampled_from(["gauss", "grid", "same", "line", "mono", "far", "const", "gauss"])
pts = st.tuples(seeds, sized((1, 8), (5, 40), (30, 150)), kinds)
qpts = st.tuples(seeds, sized((1, 8), (14, 19), (30, 36), (10, 60)), kinds)
op = st.one_of(
    st.tuples(st.just("add"), pts),
    st.tuples(st.just("knn"), qpts, st.integers(1, 14), st.booleans(), st.sampled_from([None, 0.1, 0.5])),
    st.tuples(st.just("within"), qpts, st.sampled_from(["s", "v", "one", "row"]), st.floats(0.02, 0.9), st.booleans(), st.booleans(), st.booleans()),
    st.tuples(st.just("cnt"), qpts, st.sampled_from(["s", "v", "one", "row"]), st.floats(0.02, 0.9), st.booleans()),
    st.tuples(st.just("len")),
    st.tuples(st.just("self"), st.integers(1, 6), st.booleans()),
)


def safe_radius(D, q, g):
    v = np.unique(D.ravel())
    b = float(np.quantile(v, q))
    for _ in range(60):
        r = b * (1 + 0.02 * g.random()) + 1e-3 * (1 + g.random())
        if np.min(np.abs(v - r)) > 1e-7 * (1 + r):
            return r
    return None


def check_knn_rows(dist, idx, D, k, bound):
    nq, n = D.shape
    if dist.shape != (nq, k) or idx.shape != (nq, k):
        fail("output shape", dist=dist.shape, idx=idx.shape, want=(nq, k))
    S = np.sort(D, axis=1)
    for i in range(nq):
        want = S[i][S[i] <= bound][:k]
        m = len(want)
        if (idx[i, m:] != U32MAX).any() or not np.isinf(dist[i, m:]).all():
            fail("padding after the neighbours within the bound", i=i, idx=idx[i], dist=dist[i], want=want)
        ii = idx[i, :m].astype(int)
        if (ii >= n).any() or len(set(ii)) != m:
            fail("invalid or repeated index", i=i, idx=idx[i])
        if not np.allclose(dist[i, :m], want, rtol=1e-9, atol=1e-9):
            fail("neighbour distances", i=i, got=dist[i], want=want)
        if not np.allclose(D[i][ii], want, rtol=1e-9, atol=1e-9):
            fail("returned points are not the nearest", i=i, idx=idx[i], got=D[i][ii], want=want)


dims = st.sampled_from([1, 2, 3, 2, 5, 6, 10, 14, 15, 16, 18, 20])


@law(
    st.fixed_dictionaries(dict(d=dims, metric=st.sampled_from(METRICS), first=pts, fortran=st.booleans(),
                               ops=st.lists(op, min_size=1, max_size=9))),
    n=1500, thorough=30000,
    rule="history: a query follows an addition, or the tree has more points than one leaf holds",
)
def history(case):
    import warnings

    d, m = case["d"], case["metric"]
    P = points(case["first"], d)
    src = P.copy(order="F") if case["fortran"] else P.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = KDTree(src, distance=m)
    src[:] = 1e6  # the tree copies its data
    lab = None
    added = False
    for o in case["ops"]:
        kind = o[0]
        if kind == "add":
            Q = points(o[1], d)
            r = t.add(Q)
            if r is not t:
                fail("add returns the tree")
            Q2 = Q.copy()
            Q[:] = -1e6
            P = np.r_[P, Q2]
            added = True
            continue
        if kind == "len":
            check_eq(len(t), len(P), "len")
            check_eq(t.count(), len(P), "count")
            continue
        if kind == "self":
            X = np.ascontiguousarray(P[:: max(1, len(P) // 40)])
            D = dmat(X, P, m)
            assume(D.max() < 9e3)
            dist, idx = t.knn(X, k=o[1], parallel=o[2])
            check_knn_rows(dist, idx, D, o[1], 9999.0)
            if not np.allclose(dist[:, 0], 0):
                fail("a stored point is not its own nearest neighbour")
            lab = lab or (added or len(P) > 10)
            continue
        X = points(o[1], d)
        g = rng(o[1][0] + 1)
        D = dmat(X, P, m)
        if kind == "knn":
            _, _, k, par, bq = o
            kw, bound = {}, 9999.0
            if bq is not None:
                bound = safe_radius(D, bq, g)
                assume(bound is not None)
                kw["max_dist_bound"] = bound
            assume(not (np.abs(D - bound) < 1e-6 * (1 + bound)).any())
            dist, idx = t.knn(X, k=k, parallel=par, **kw)
            check_knn_rows(dist, idx, D, k, bound)
        else:
            mode, q = o[2], o[3]
            nq = len(X)
            if mode == "row":
                X, D, nq = X[:1].copy(), D[:1], 1
            if mode in ("s", "one"):
                r = safe_radius(D, q, g)
                assume(r is not None)
                rr = np.full(nq, r)
                arg = r if mode == "s" else np.array([r])
            else:
                rr = np.array([safe_radius(D, float(g.random()), g) or -1 for _ in range(nq)])
                assume((rr > 0).all())
                arg = rr.reshape(-1, 1) if g.random() < 0.2 else rr
            W = D <= rr[:, None]
            if kind == "cnt":
                got = t.within_count(X, arg, parallel=o[4])
                if got is None or list(map(int, got)) != W.sum(1).tolist():
                    fail("count within radius", got=got, want=W.sum(1).tolist())
            else:
                srt, rd, par = o[4:7]
                got = t.within(X, arg, sort=srt, return_dist=rd, parallel=par)
                if got is None or len(got) != nq:
                    fail("within: wrong number of lists", got=got)
                for i, row in enumerate(got):
                    ii = [int(a[0]) for a in row] if rd else [int(a) for a in row]
                    want = set(np.nonzero(W[i])[0].tolist())
                    if len(set(ii)) != len(ii) or set(ii) != want:
                        fail("points within radius", i=i, got=sorted(ii), want=sorted(want), r=rr[i])
                    if rd and not np.allclose([a[1] for a in row], D[i][ii], rtol=1e-9, atol=1e-9):
                        fail("reported distances", i=i)
                    if srt:
                        dd = D[i][ii]
                        if (np.diff(dd) < -1e-9 * (1 + dd[:-1])).any():
                            fail("not sorted by distance", i=i, d=dd)
        lab = lab or (added or len(P) > 10)
    check_eq(len(t), len(P), "len at the end")
    return lab


@law(st.fixed_dictionaries(dict(seed=seeds, metric=st.sampled_from(METRICS), d=st.sampled_from([20, 24]), n=st.integers(4090, 4300),
                                extra=st.integers(1, 60))), n=16, thorough=200,
     rule="high dimension: the tree holds more points than the leaf capacity used from dimension 20 up")
def big_high_dim(case):
    d, n = case["d"], case["n"]
    g = rng(case["seed"])
    P = g.normal(size=(n, d))
    t = KDTree(P, distance=case["metric"])
    Q = g.normal(size=(case["extra"], d))
    t.add(Q)
    P = np.r_[P, Q]
    X = np.ascontiguousarray(np.r_[P[g.integers(0, len(P), 10)], g.normal(size=(10, d))])
    D = dmat(X, P, case["metric"])
    dist, idx = t.knn(X, k=5)
    check_knn_rows(dist, idx, D, 5, 9999.0)
    r = safe_radius(D, 0.2, g)
    if r:
        check_eq(list(map(int, t.within_count(X, r))), (D <= r).sum(1).tolist(), "count within radius")
    return n > 4098


@law(st.tuples(seeds, st.sampled_from(METRICS), st.integers(1, 3), st.floats(0.01, 1.0), st.integers(1, 6)), n=120,
     rule="epsilon: every reported neighbour is at most epsilon worse than the true one")
def epsilon_bound(case):
    seed, m, d, eps, k = case
    g = rng(seed)
    P = g.normal(size=(150, d))
    t = KDTree(P, distance=m)
    X = g.normal(size=(20, d))
    D = dmat(X, P, m)
    dist, idx = t.knn(X, k=k, epsilon=eps)
    S = np.sort(D, axis=1)[:, :k]
    for i in range(20):
        if len(set(idx[i].tolist())) != k or not np.allclose(D[i][idx[i].astype(int)], dist[i]):
            fail("reported neighbours and distances disagree", i=i)
        if not ((dist[i] <= S[i] + eps + 1e-9) & (dist[i] >= S[i] - 1e-9)).all():
            fail("missed a neighbour by more than epsilon", i=i, got=dist[i], want=S[i], eps=eps)
    return True


@law(st.tuples(seeds, st.integers(1, 4), st.integers(1, 30)), n=60, rule="misuse is rejected: always counted")
def misuse(case):
    seed, d, n = case
    g = rng(seed)
    P = g.normal(size=(n, d))
    t = KDTree(P, distance="l2")
    bad = g.normal(size=(3, d + 1))
    for f in (lambda: t.add(bad), lambda: t.knn(bad, 1), lambda: t.knn(P, 0), lambda: KDTree(P, distance="nope"),
              lambda: KDTree(P[0]), lambda: t.add(P[0]), lambda: t.within_count(P, np.ones(n + 2))):
        if not raises(f):
            fail("misuse was accepted")
    check_eq(len(t), n, "a rejected addition changes nothing")
    return True


@law(st.tuples(seeds, st.sampled_from(["l1", "sql2", "inf"]), st.sampled_from([1, 2, 3, 4, 6, 16]), sized((2, 14), (20, 150)), st.integers(0, 60),
               st.integers(1, 25), st.integers(0, 12), st.booleans()), n=300,
     rule="boundary: some distance is exactly the bound (integer coordinates, so distances are exact)")
def at_the_bound(case):
    seed, m, d, n, extra, k, b, par = case
    g = rng(seed)
    P = g.integers(-4, 5, (n, d)).astype(float)
    t = KDTree(P.copy(), distance=m)
    if extra:
        Q = g.integers(-6, 7, (extra, d)).astype(float)
        t.add(Q)
        P = np.r_[P, Q]
    X = np.r_[P[g.integers(0, len(P), 9)], g.integers(-7, 8, (9, d)).astype(float)]
    D = dmat(X, P, m)
    v = np.unique(D[D > 0])
    if len(v) == 0:
        raise Skip
    b = float(v[b % len(v)])
    dist, idx = t.knn(X, k=k, max_dist_bound=b, parallel=par)
    check_knn_rows(dist, idx, D, k, b)
    W = D <= b
    check_eq(list(map(int, t.within_count(X, b, parallel=par))), W.sum(1).tolist(), "count at the radius")
    rows = t.within(X, b, sort=False, return_dist=False, parallel=par)
    for i, row in enumerate(rows):
        if sorted(map(int, row)) != np.nonzero(W[i])[0].tolist():
            fail("points at the radius", i=i, got=sorted(row), want=np.nonzero(W[i])[0].tolist(), r=b)
    rv = g.choice(v, len(X))
    check_eq(list(map(int, t.within_count(X, rv, parallel=par))), (D <= rv[:, None]).sum(1).tolist(), "count at the radii")
    return bool((D == b).any())


@law(st.fixed_dictionaries(dict(d=dims, metric=st.sampled_from(METRICS), seed=seeds, n=sized((1, 40), (30, 120)), k=st.integers(1, 8), q=st.floats(0.05, 0.9), e=st.sampled_from([-24, -60, -100, 60, 100]),
                                par=st.booleans())), n=250, rule="more points than a leaf holds")
def scales(case):
    """A tree of scaled points: the same answers, at scaled distances."""
    import warnings

    g = rng(case["seed"])
    d, m = case["d"], case["metric"]
    P, X = g.normal(size=(case["n"], d)), g.normal(size=(7, d))
    r = safe_radius(dmat(X, P, m), case["q"], g)
    if r is None:
        raise Skip
    f = 2.0 ** case["e"]
    fd = f * f if m == "sql2" else f
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = KDTree(P, distance=m), KDTree(P * f, distance=m)
    top = 1000.0
    for bound in (top, r):
        (u, i), (v, j) = a.knn(X, k=case["k"], parallel=case["par"], max_dist_bound=bound), b.knn(X * f, k=case["k"], parallel=case["par"], max_dist_bound=bound * fd)
        if not (np.array_equal(i, j) and np.allclose(u * fd, v, rtol=1e-12, atol=0)):
            fail("knn in a tree of scaled points", got=(v[0], j[0]), want=(u[0] * fd, i[0]), bound=bound)
    for rr in (r, np.linspace(r / 2, r, len(X))):
        u, v = a.within_count(X, rr, parallel=case["par"]), b.within_count(X * f, rr * fd, parallel=case["par"])
        if v is None or list(u) != list(v):
            fail("within_count in a tree of scaled points", got=v, want=u)
        u, v = a.within(X, rr, sort=True, return_dist=False, parallel=case["par"]), b.within(X * f, rr * fd, sort=True, return_dist=False, parallel=case["par"])
        if v is None or [list(z) for z in u] != [list(z) for z in v]:
            fail("within in a tree of scaled points", got=v, want=u)
    return m if case["n"] > 10 else None


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 120000)), more=st.sampled_from([0, 1, 40000]), d=st.integers(1, 4), metric=st.sampled_from(METRICS), k=st.integers(1, 9), tied=st.booleans(), par=st.booleans())), n=8, thorough=8, rule="by metric; ties")
def many_rows(c):
    """More points than 16 bits count, some of them added to a tree that is already built."""
    g = rng(c["seed"])
    n, d, m, k = c["n"], c["d"], c["metric"], c["k"]
    P, X = g.normal(size=(n + c["more"], d)), g.normal(size=(15, d))
    if c["tied"]:
        P, X = np.round(P * 16) / 16, np.round(X * 16) / 16
    t = KDTree(np.ascontiguousarray(P[:n]), distance=m)
    if c["more"]:
        t.add(np.ascontiguousarray(P[n:]))
    check_eq(len(t), len(P), "number of points")
    D = dmat(X, P, m)
    srt = np.sort(D, axis=1)[:, :k]
    dist, idx = t.knn(X, k=k, parallel=c["par"])
    for i in range(len(X)):
        if len(set(idx[i])) != k or not np.allclose(dist[i], srt[i], rtol=1e-9, atol=1e-12) or not np.allclose(D[i, idx[i].astype(int)], dist[i], rtol=1e-9, atol=1e-12):
            fail("knn among many points", got=(idx[i].tolist(), dist[i].tolist()), want=srt[i].tolist())
    r = float(np.quantile(D[0], 0.7))
    if np.abs(D - r).min() > 1e-12:
        check_eq([int(v) for v in t.within_count(X, r, parallel=c["par"])], (D <= r).sum(1).tolist(), "numbers of points within the radius")
        for i, w in enumerate(t.within(X[:3], r, parallel=c["par"])):
            if sorted(w) != np.flatnonzero(D[i] <= r).tolist():
                fail("points within the radius, among many", got=len(w), want=int((D[i] <= r).sum()))
    return f"{m}{' ties' if c['tied'] else ''}"
