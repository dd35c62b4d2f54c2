"""String edit distances and similarities equal their definitions."""
from checks.strref import *

RULE = "a row compares two different non-empty strings with a common letter"
FUN = {
    "leven": (pds.str_leven, {}, lev, pl.UInt32),
    "leven_sim": (pds.str_leven, dict(return_sim=True), norm(lev), pl.Float64),
    "d_leven": (pds.str_d_leven, {}, dlev, pl.UInt32),
    "d_leven_sim": (pds.str_d_leven, dict(return_sim=True), norm(dlev), pl.Float64),
    "osa": (pds.str_osa, {}, osa, pl.UInt32),
    "osa_sim": (pds.str_osa, dict(return_sim=True), norm(osa), pl.Float64),
    "lcs": (pds.str_lcs_seq, dict(return_sim=False), lcs_dist, pl.UInt32),
    "lcs_sim": (pds.str_lcs_seq, {}, norm(lcs_dist), pl.Float64),
    "hamming": (pds.str_hamming, {}, hamming, pl.UInt32),
    "hamming_pad": (pds.str_hamming, dict(pad=True), hamming_pad, pl.UInt32),
    "fuzz": (pds.str_fuzz, {}, indel_sim, pl.Float64),
    "jaro": (pds.str_jaro, {}, jaro, pl.Float64),
    "jw": (pds.str_jw, {}, jw(0.1), pl.Float64),
}


def one(c, f, kw, ref, dtype, name):
    df, other, pairs = frame(c)
    out = df.select(o=f("a", other, parallel=c["parallel"], **kw))["o"]
    check_eq(out.dtype, dtype, f"{name}: dtype")
    want = [None if a is None or b is None else ref(a, b) for a, b in pairs]
    for (a, b), g, w in zip(pairs, out.to_list(), want):
        if not close(g, w, 1e-12, 1e-12):
            fail(f"{name}({a!r}, {b!r}): got {g!r}, want {w!r}")
    check_eq(len(out), len(pairs), f"{name}: length")
    return c["mode"] if nt(pairs) else None


def make(name):
    f, kw, ref, dtype = FUN[name]

    def fn(case):
        return one(case, f, kw, ref, dtype, name)

    fn.__module__ = __name__
    law(str_case, n=350, rule=RULE, name=name)(fn)


for _n in FUN:
    make(_n)


@law(st.tuples(str_case, st.sampled_from([0.0, 0.05, 0.1, 0.2, 0.25])), n=300, rule=RULE)
def jw_weight(case):
    c, w = case
    return one(c, pds.str_jw, dict(weight=w), jw(w), pl.Float64, f"jw weight={w}")


@law(st.tuples(str_case, st.integers(0, 6)), n=400, rule="a row within and a row beyond the bound")
def filter_leven(case):
    c, bound = case
    return filt(c, pds.filter_by_levenshtein, bound, lev)


@law(st.tuples(str_case, st.integers(0, 6)), n=400, rule="a row within and a row beyond the bound")
def filter_hamming(case):
    c, bound = case
    return filt(c, pds.filter_by_hamming, bound, hamming)


def filt(c, f, bound, ref):
    df, other, pairs = frame(c)
    out = df.select(o=f("a", other, bound, parallel=c["parallel"]))["o"]
    check_eq(out.dtype, pl.Boolean, "dtype")
    want = []
    for a, b in pairs:
        d = None if a is None or b is None else ref(a, b)
        want.append(None if a is None or b is None else d is not None and d <= bound)
    for p, g, w in zip(pairs, out.to_list(), want):
        check_eq(g, w, f"{f.__name__}{p} bound={bound}")
    kept = df.filter(f("a", other, bound, parallel=c["parallel"])).height
    check_eq(kept, sum(bool(w) for w in want), "rows kept by the filter")
    return True in want and False in want


@law(st.tuples(cols_st, st.sampled_from(sorted(FUN))), n=500, rule=RULE)
def per_group(case):
    """group_by and over give the same values as rows on their own"""
    (A, B), name = case
    f, kw, ref, dtype = FUN[name]
    n = len(A)
    k = [i * 7 % 3 for i in range(n)]
    df = pl.DataFrame({"a": pl.Series(A, dtype=pl.String), "b": pl.Series(B, dtype=pl.String), "k": k})
    pairs = list(zip(A, B))
    want = [None if a is None or b is None else ref(a, b) for a, b in pairs]
    # a group of one row compares with its own row, which is also what a scalar operand would do
    g = df.group_by("k", maintain_order=True).agg(o=f("a", "b", parallel=True, **kw))
    for key, o in g.iter_rows():
        check_seq(o, [w for w, kk in zip(want, k) if kk == key], f"{name} in group {key}", 1e-12, 1e-12)
    if n > 0:
        o = df.select(o=f("a", "b", **kw).over("k"))["o"]
        check_seq(o, want, f"{name} over", 1e-12, 1e-12)
    return nt(pairs)
