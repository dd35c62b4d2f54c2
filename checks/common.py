"""Helpers shared by the checks: import of the package under test, comparison, generators."""
from __future__ import annotations
import math
import numpy as np
import polars as pl
import hypothesis.strategies as st
from hypothesis import assume
from harness import law, Violation, Skip, LAWS

import polars_ds as pds

NAN = float("nan")


def fail(msg, **kw):
    raise Violation(msg + ("" if not kw else " | " + ", ".join(f"{k}={v!r}" for k, v in kw.items())))


def close(a, b, rtol=1e-7, atol=1e-9):
    """Scalars: both None, both NaN, equal infinities, or close."""
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(got, want, what, rtol=1e-7, atol=1e-9, **kw):
    if not close(got, want, rtol, atol):
        fail(f"{what}: got {got!r}, want {want!r}", **kw)


def check_seq(got, want, what, rtol=1e-7, atol=1e-9, **kw):
    got, want = list(got), list(want)
    if len(got) != len(want):
        fail(f"{what}: length {len(got)} != {len(want)}", got=got[:20], want=want[:20], **kw)
    for i, (g, w) in enumerate(zip(got, want)):
        if not close(g, w, rtol, atol):
            fail(f"{what}: at {i}: got {g!r}, want {w!r}", got=got[:30], want=want[:30], **kw)


def check_eq(got, want, what, **kw):
    if got != want:
        fail(f"{what}: got {got!r}, want {want!r}", **kw)


def raises(f):
    """True when f raises an ordinary error (not a panic)."""
    try:
        f()
    except Exception:
        return True
    return False


def rng(seed):
    return np.random.default_rng(seed)


seeds = st.integers(0, 2**31 - 1)


def sized(*ranges):
    """Integers from a weighted union of ranges, shrinking to the first."""
    return st.one_of(*[st.integers(a, b) for a, b in ranges])


def chunk(s: pl.Series, cuts):
    """The same Series stored in several chunks."""
    n = len(s)
    cuts = sorted({c % (n + 1) for c in cuts})
    parts, prev = [], 0
    for c in cuts + [n]:
        if c > prev:
            parts.append(s.slice(prev, c - prev))
            prev = c
    if len(parts) < 2:
        return s
    return pl.concat([p.rechunk() for p in parts], rechunk=False)


def chunk_df(df: pl.DataFrame, cuts):
    n = df.height
    cuts = sorted({c % (n + 1) for c in cuts})
    parts, prev = [], 0
    for c in cuts + [n]:
        if c > prev:
            parts.append(df.slice(prev, c - prev))
            prev = c
    if len(parts) < 2:
        return df
    return pl.concat(parts, rechunk=False)


cuts_st = st.lists(st.integers(0, 500), max_size=3)


def floats(lo=-1e3, hi=1e3, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def grid(lo=-20, hi=20, den=4):
    """Dyadic numbers: exact arithmetic for sums and products of a few of them."""
    return st.integers(lo * den, hi * den).map(lambda i: i / den)


def one(ctx, df, e, g_other=None):
    """The single value of an aggregating expression, from a select, a group_by (beside another group) or an over."""
    e = e.alias("o")
    if ctx == "select":
        s = df.select(e)["o"]
        check_eq(len(s), 1, "length of a scalar result")
        return s[0]
    if ctx == "lazy":
        s = df.lazy().select(e, pl.lit(1).alias("k")).collect()["o"]
        check_eq(len(s), 1, "length of a scalar result")
        return s[0]
    other = g_other if g_other is not None else df.reverse()
    if ctx == "group":
        d = pl.concat([other.with_columns(g__=pl.lit(1)), df.with_columns(g__=pl.lit(0))])
        return d.group_by("g__").agg(e).filter(pl.col("g__") == 0)["o"][0]
    # over: rows of the two groups alternate at the start
    d = pl.concat([df.head(1).with_columns(g__=pl.lit(0)), other.with_columns(g__=pl.lit(1)), df.slice(1).with_columns(g__=pl.lit(0))])
    s = d.select("g__", e.over("g__")).filter(pl.col("g__") == 0)["o"]
    if s.n_unique() != 1:
        fail("an aggregation gave several values in one group", got=s.head(10).to_list())
    return s[0]


def flat(s):
    """All numbers of a result column, in order, as floats (nulls as NaN)."""
    while isinstance(s.dtype, (pl.List, pl.Array)):
        s = s.explode()
    if s.dtype == pl.Struct:
        u = s.struct.unnest()
        return np.concatenate([flat(u[k]) for k in u.columns]) if u.columns else np.zeros(0)
    return s.cast(pl.Float64).fill_null(NAN).to_numpy()


POW2 = st.sampled_from([0, 0, -24, -60, -100, 27, 60, 100])


def homogeneous(df, scaled, F, tol=1e-9):
    """Each expression of F (name: (expression, the same over the scaled frame, factor)): scaled inputs scale the result.
    Powers of two leave every rounding as it is, so only constants that do not scale make a difference."""
    for name, (e, es, f) in F.items():
        a, b = flat(df.select(e.alias("o"))["o"]), flat(scaled.select(es.alias("o"))["o"])
        if len(a) != len(b) or (np.isnan(a) != np.isnan(b)).any():
            fail(name + " of scaled data", got=b[:10], want=a[:10] * f)
        fin = np.isfinite(a)
        if not (a[~fin & ~np.isnan(a)] == b[~fin & ~np.isnan(a)]).all():
            fail(name + " of scaled data", got=b[:10], want=a[:10] * f)
        a, b = a[fin] * f, b[fin]
        if len(a) and np.abs(b - a).max() > tol * np.abs(a).max():
            fail(name + " of scaled data", got=b[:10], want=a[:10], factor=f)
