"""Reference least squares and data generators for the regression checks."""
from checks.common import *
import contextlib
import polars_ds.config as cfg


@contextlib.contextmanager
def precision(f64):
    old = cfg.LIN_REG_EXPR_F64
    cfg.LIN_REG_EXPR_F64 = f64
    try:
        yield
    finally:
        cfg.LIN_REG_EXPR_F64 = old


def aug(X, bias):
    return np.column_stack([X, np.ones(len(X))]) if bias else X


def ridge(X, y, bias=False, l2=0.0, w=None):
    """Minimiser of sum w (y - Xb)^2 + l2 |b|^2 with the intercept (last) unpenalised, by orthogonal factorisation."""
    A = aug(np.asarray(X, float), bias)
    Y = np.asarray(y, float)
    if w is not None:
        s = np.sqrt(np.asarray(w, float))
        A = A * s[:, None]
        Y = Y * (s if Y.ndim == 1 else s[:, None])
    if l2:
        p = X.shape[1]
        R = np.zeros((p, A.shape[1]))
        R[:, :p] = np.sqrt(l2) * np.eye(p)
        A = np.vstack([A, R])
        Y = np.concatenate([Y, np.zeros((p,) + Y.shape[1:])])
    return np.linalg.lstsq(A, Y, rcond=None)[0]


def cond(X, bias=False, w=None):
    A = aug(np.asarray(X, float), bias)
    if w is not None:
        A = A * np.sqrt(w)[:, None]
    if len(A) < A.shape[1]:
        return np.inf
    s = np.linalg.svd(A, compute_uv=False)
    return np.inf if s[-1] == 0 else s[0] / s[-1]


def design(r, n, p, kind):
    if kind == "normal":
        X = r.normal(size=(n, p))
    elif kind == "shifted":
        X = r.normal(size=(n, p)) + r.integers(-3, 4, p)
    elif kind == "ints":
        X = r.integers(-5, 6, size=(n, p)).astype(float)
    elif kind == "dummies":
        X = (r.random((n, p)) < 0.4).astype(float)
    else:  # scaled
        X = r.normal(size=(n, p)) * 10.0 ** r.integers(-1, 2, p)
    y = X @ r.normal(size=p) + r.normal(size=n) * r.choice([0.0, 0.1, 3.0]) + r.integers(-2, 3)
    return X, y


kinds = st.sampled_from(["normal", "shifted", "ints", "dummies", "scaled"])
base = dict(seed=seeds, p=st.integers(1, 5), extra=sized((0, 8), (0, 60), (200, 300)), kind=kinds, bias=st.booleans(), cuts=cuts_st)


def make(c, min_extra=1, maxcond=1e3):
    """-> r, X, y, df ; the frame has columns x0.., y, in several chunks."""
    r = rng(c["seed"])
    n = c["p"] + int(c["bias"]) + c["extra"] + min_extra
    X, y = design(r, n, c["p"], c["kind"])
    if cond(X, c["bias"]) > maxcond:
        raise Skip
    return r, X, y


def frame(X, y, cuts=(), **more):
    d = {f"x{i}": X[:, i] for i in range(X.shape[1])}
    d["y"] = y
    d.update(more)
    return chunk_df(pl.DataFrame(d), cuts)


def names(X):
    return [f"x{i}" for i in range(X.shape[1])]


def scale_tol(want, X, y, rel):
    """Absolute tolerance for coefficients: relative to the size of the coefficient vector and of y/X."""
    return rel * (1.0 + float(np.max(np.abs(want))) + float(np.max(np.abs(y))))
