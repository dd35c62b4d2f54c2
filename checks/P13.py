"""Hypothesis tests equal scipy's statistic and p-value (independent implementation), in every context."""
import warnings
from scipy import stats as S
from scipy import special
from checks.common import *

warnings.filterwarnings("ignore")
CTX = st.sampled_from(["select", "group", "over", "lazy"])
KINDS = ["normal", "ties", "heavy", "offset", "tiny", "bimodal", "skewed", "int", "apart", "same"]
RANKS = st.sampled_from(KINDS + ["close"])  # "close": distinct values that differ in the last digits only
ALT = st.sampled_from(["two-sided", "less", "greater"])
base = dict(seed=seeds, n=sized((2, 12), (13, 60), (61, 300), (301, 2000)), kind=st.sampled_from(KINDS), dirt=st.sampled_from([0, 0, 0.2]), ctx=CTX, cuts=cuts_st)


def sample(r, n, k):
    x = r.normal(size=n)
    if k == "ties":
        return r.integers(-3, 4, n) / 2
    if k == "close":
        return 1 + r.integers(-5, 6, n) * 2.0**-45
    if k == "heavy":
        return r.standard_t(1.2, n)
    if k == "offset":
        return x + 1000
    if k == "tiny":
        return x * 1e-4
    if k == "bimodal":
        return r.choice([-1.0, 1.0], n) + 0.02 * x
    if k == "skewed":
        return np.exp(1.5 * x)
    if k == "int":
        return np.round(x * 5)
    return x


def two(c, equal=False, dirt=True):
    """Two samples stored as equally long columns; unusable entries (null, NaN, infinite) make the sample sizes differ."""
    r = rng(c["seed"])
    n, k = c["n"], c["kind"]
    a, b = sample(r, n, k), sample(r, n, k)
    b = b * r.choice([1.0, 0.3, 4.0]) + r.choice([0.0, 0.3, -1.0]) * (1e-4 if k == "tiny" else 1) if k not in ("ties", "int") else b + r.choice([0, 1, 2])
    if k == "close":
        b = sample(r, n, k) + r.choice([0, 1, 2]) * 2.0**-45
    if k == "apart":
        b = b + 8
    if k == "same":
        b = r.permutation(a)
    A, B = list(map(float, a)), list(map(float, b))
    if dirt and c["dirt"]:
        for L in (A, B):
            for i in range(n):
                if r.random() < c["dirt"]:
                    L[i] = [None, NAN, float("inf"), -float("inf"), None][r.integers(5)]
    if not equal and dirt:
        m = int(r.integers(0, n // 2 + 1))
        for i in range(m):
            (A if c["seed"] % 2 else B)[i] = None
    df = pl.DataFrame({"a": pl.Series(A, dtype=pl.Float64), "b": pl.Series(B, dtype=pl.Float64)})
    if k == "int" and not dirt:
        df = df.cast(pl.Int64)
    df = df.with_columns(chunk(df["a"], c["cuts"]), chunk(df["b"], c["cuts"][::-1]))
    f = lambda L: np.array([v for v in L if v is not None and math.isfinite(v)])
    return r, df, f(A), f(B)


def expect(got, stat, p, what, rtol=1e-7, ptol=1e-7, sscale=1.0):
    """The statistic to a relative error, the p-value also: tails count."""
    if got is None:
        fail(what + ": no result")
    if isinstance(got, (list, pl.Series)):
        fail(what + ": a list instead of one statistic")
    check_close(got["statistic"], stat, what + " statistic", rtol, rtol * sscale + 1e-12)
    gp = got["pvalue"]
    if not (math.isnan(p) and math.isnan(gp)) and not (-1e-12 <= gp <= 1 + 1e-12):
        fail(what + f": p-value {gp} outside [0, 1]")
    if abs(p) < 1e-250 and abs(gp) < 1e-200:
        return
    check_close(gp, p, what + " p-value", ptol * (1 + abs(np.log(max(p, 1e-300)))), 1e-14)


def cond(a):
    return (np.abs(a).max() + 1e-300) / max(a.std(), 1e-300)


def usable(*arrs):
    for a in arrs:
        if len(a) < 2 or a.std() < 1e-9 * (1 + np.abs(a).max()):
            raise Skip
    return max(map(cond, arrs))


@law(st.fixed_dictionaries(dict(base, alt=ALT)), n=900, rule="by data kind and alternative", thorough=8)
def welch(c):
    r, df, a, b = two(c)
    k = usable(a, b)
    o = S.ttest_ind(a, b, equal_var=False, alternative=c["alt"])
    e = pds.ttest_ind("a", "b", alternative=c["alt"], equal_var=False)
    tol = 1e-9 * (1 + k * k / len(a)) + 1e-8
    got = one(c["ctx"], df, e)
    expect(got, o.statistic, o.pvalue, "welch", tol, tol * (1 + abs(o.statistic)), k)
    # swapping the samples mirrors everything
    flip = {"two-sided": "two-sided", "less": "greater", "greater": "less"}[c["alt"]]
    g2 = one("select", df, pds.ttest_ind("b", "a", alternative=flip, equal_var=False))
    check_close(g2["statistic"], -got["statistic"], "welch: statistic of the swapped samples", 1e-9, 1e-12)
    check_close(g2["pvalue"], got["pvalue"], "welch: p-value of the swapped samples", 1e-7, 1e-13)
    # the summary statistics of the second sample carry the same information
    g3 = one(c["ctx"], df, pds.ttest_ind_from_stats("a", float(b.mean()), float(b.var(ddof=1)), len(b), alternative=c["alt"], equal_var=False))
    expect(g3, o.statistic, o.pvalue, "welch from statistics", tol, tol * (1 + abs(o.statistic)), k)
    return f"{c['kind']} {c['alt']}"


@law(st.fixed_dictionaries(dict(base, alt=ALT)), n=500, rule="by data kind and alternative", thorough=8)
def student(c):
    r, df, a, b = two(dict(c, dirt=0), equal=True, dirt=False)
    k = usable(a, b)
    o = S.ttest_ind(a, b, equal_var=True, alternative=c["alt"])
    tol = 1e-9 * (1 + k * k / len(a)) + 1e-8
    got = one(c["ctx"], df, pds.ttest_ind("a", "b", alternative=c["alt"], equal_var=True))
    expect(got, o.statistic, o.pvalue, "student", tol, tol * (1 + abs(o.statistic)), k)
    g3 = one(c["ctx"], df, pds.ttest_ind_from_stats("a", float(b.mean()), float(b.var(ddof=1)), len(b), alternative=c["alt"], equal_var=True))
    expect(g3, o.statistic, o.pvalue, "student from statistics", tol, tol * (1 + abs(o.statistic)), k)
    return f"{c['kind']} {c['alt']}"


@law(st.fixed_dictionaries(dict(base, alt=ALT, mu=st.sampled_from([0.0, 0.5, -1.0, 10.0, 999.5]))), n=600, rule="by data kind and alternative", thorough=8)
def one_sample(c):
    r, df, a, b = two(c)
    k = usable(a) + abs(c["mu"]) / a.std()
    o = S.ttest_1samp(a, c["mu"], alternative=c["alt"])
    tol = 1e-9 * (1 + k * k / len(a)) + 1e-8
    got = one(c["ctx"], df, pds.ttest_1samp("a", c["mu"], alternative=c["alt"]))
    expect(got, o.statistic, o.pvalue, "one sample", tol, tol * (1 + abs(o.statistic)), k)
    return f"{c['kind']} {c['alt']}"


@law(st.fixed_dictionaries(dict(base, kind=RANKS, alt=ALT, tied=st.sampled_from([False] * 15 + [True]))), n=900, rule="by data kind and alternative; ties", thorough=8)
def mann_whitney(c):
    r, df, a, b = two(c)
    if c["tied"]:  # everything is one tie
        df = df.with_columns(pl.when(pl.all().is_finite()).then(2.5).otherwise(pl.all()).name.keep())
        a, b = a * 0 + 2.5, b * 0 + 2.5
    if len(a) < 1 or len(b) < 1:
        raise Skip
    o = S.mannwhitneyu(a, b, alternative=c["alt"], method="asymptotic", use_continuity=True)
    sd = len(np.unique(np.r_[a, b]))
    stat, p = o.statistic, o.pvalue if sd > 1 else 1.0
    got = one(c["ctx"], df, pds.mann_whitney_u("a", "b", alternative=c["alt"]))
    expect(got, stat, p, "mann-whitney", 1e-12, 1e-9)
    g2 = one("select", df, pds.mann_whitney_u("b", "a", alternative={"two-sided": "two-sided", "less": "greater", "greater": "less"}[c["alt"]]))
    check_close(g2["statistic"], len(a) * len(b) - stat, "mann-whitney: U of the swapped samples", 1e-12, 1e-9)
    check_close(g2["pvalue"], got["pvalue"], "mann-whitney: p-value of the swapped samples", 1e-9, 1e-15)
    return f"{c['kind']} {c['alt']}" if sd < len(a) + len(b) or c["alt"] != "two-sided" else c["kind"]


@law(st.fixed_dictionaries(dict(base, kind=RANKS, alpha=st.sampled_from([0.05, 0.01, 0.2, 0.001]), binary=st.booleans(), m=sized((25, 36), (37, 400)))), n=700,
     rule="by data kind, binary or not", thorough=8)
def kolmogorov_smirnov(c):
    r, df, a, b = two(dict(c, n=c["m"]))
    if c["binary"]:
        z = r.integers(0, 2, c["m"])
        df = df.with_columns(z=pl.Series(z))
        v = df["b"].to_list()
        f = lambda t: np.array([x for x, y in zip(v, z) if y == t and x is not None and math.isfinite(x)])
        a, b = f(1), f(0)
        e = pds.ks_2samp("z", "b", alpha=c["alpha"], is_binary=True)
    else:
        e = pds.ks_2samp("a", "b", alpha=c["alpha"])
    got = one(c["ctx"], df, e)
    n1, n2 = len(a), len(b)
    if n1 < 30 or n2 < 30:
        check_eq(got["statistic"], 0.0, "ks of a small sample")
        if not math.isnan(got["pvalue"]):
            fail("ks threshold of a small sample", got=got)
        return "small"
    o = S.ks_2samp(a, b)
    check_close(got["statistic"], o.statistic, "ks statistic", 1e-12, 1e-12)
    thr = np.sqrt(-np.log(c["alpha"] / 2) / 2 * (n1 + n2) / (n1 * n2))
    check_close(got["pvalue"], thr, "ks threshold", 1e-10, 1e-12)
    if not c["binary"]:
        check_close(one("select", df, pds.ks_2samp("b", "a", alpha=c["alpha"]))["statistic"], o.statistic, "ks statistic of the swapped samples", 1e-12, 1e-12)
    return f"{c['kind']} {'binary' if c['binary'] else 'two'} {'exactly 30' if min(n1, n2) == 30 else ''}"


@law(st.fixed_dictionaries(dict(base, k=st.integers(2, 6), skew=st.booleans(), names=st.booleans(), vars=st.integers(1, 4))), n=700, rule="by data kind and number of groups", thorough=8)
def anova(c):
    r = rng(c["seed"])
    n = max(c["n"], c["k"] + 2)
    pr = r.dirichlet(np.ones(c["k"]) * (0.5 if c["skew"] else 10))
    g = r.choice(c["k"], n, p=pr)
    if len(set(g)) < 2 or n - len(set(g)) < 1:
        raise Skip
    xs = [sample(r, n, c["kind"]) + g * r.choice([0, 0.3]) * (1e-4 if c["kind"] == "tiny" else 1) for _ in range(c["vars"])]
    if any(x.std() < 1e-9 for x in xs):
        raise Skip
    gs = pl.Series([f"grp{i}" for i in g]) if c["names"] else pl.Series(g * 7 - 3)
    df = pl.DataFrame({f"x{i}": x for i, x in enumerate(xs)}).with_columns(g=gs)
    if c["kind"] == "int":
        df = df.with_columns(pl.exclude("g").cast(pl.Int32))
        xs = [df[f"x{i}"].to_numpy().astype(float) for i in range(c["vars"])]
    df = df.with_columns(chunk(df["x0"], c["cuts"]), chunk(df["g"], c["cuts"][::-1]))
    want = []
    for x in xs:
        parts = [x[g == v] for v in sorted(set(g))]
        within = sum(((p - p.mean()) ** 2).sum() for p in parts)
        if within < 1e-12 * (1 + (x**2).sum()):
            raise Skip
        btw = sum(len(p) * (p.mean() - x.mean()) ** 2 for p in parts)
        d1, d2 = len(parts) - 1, n - len(parts)
        f = btw / d1 / (within / d2)
        want.append((f, float(S.f.sf(f, d1, d2)), 1e-8 + 1e-13 * (x**2).sum() / within))
    got = one(c["ctx"], df, pds.f_test("x0", group="g"))
    f, p, tol = want[0]
    expect(got, f, p, "anova", tol, tol * (1 + n), 1.0)
    if c["vars"] > 1:
        rows = df.select(pds.f_test(*[f"x{i}" for i in range(c["vars"])], group="g").alias("o"))["o"].to_list()
        check_eq(len(rows), c["vars"], "rows of a multi-variable F test")
        for i, (f, p, tol) in enumerate(want):
            expect(rows[i], f, p, f"anova, variable {i}", tol, tol * (1 + n), 1.0)
    return f"{c['kind']} {len(set(g))} groups"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((200, 2000), (2001, 20000)), per=st.sampled_from([2, 3, 10, 100]), shift=st.sampled_from([0, 1, 3]), ctx=CTX)), n=60, rule="by rows per group", thorough=8)
def many_groups(c):
    """Hundreds or thousands of groups: both degrees of freedom of F, and those of chi-squared, are large."""
    r = rng(c["seed"])
    n = c["n"]
    k = max(2, n // c["per"])
    g = r.integers(0, k, n)
    k = len(set(g))
    x = r.normal(size=n) + r.normal(size=int(g.max()) + 1)[g] * c["shift"] / 10
    inv = np.unique(g, return_inverse=True)[1]
    cnt = np.bincount(inv)
    m = np.bincount(inv, x) / cnt
    d1, d2 = k - 1, n - k
    f = (cnt * (m - x.mean()) ** 2).sum() / d1 / (((x - m[inv]) ** 2).sum() / d2)
    df = pl.DataFrame({"x": x, "g": g, "h": r.integers(0, 3, n)})
    expect(one(c["ctx"], df, pds.f_test("x", group="g")), f, float(S.f.sf(f, d1, d2)), f"anova of {k} groups", 1e-8, 1e-6, 1.0)
    tab = np.zeros((k, 3))
    np.add.at(tab, (inv, df["h"].to_numpy()), 1)
    o = S.chi2_contingency(tab, correction=False)
    expect(one(c["ctx"], df, pds.chi2("g", "h")), o.statistic, o.pvalue, f"chi-squared of {k} categories", 1e-8, 1e-6, 1.0)
    return f"{c['per']} rows per group{', thousands' if n > 2000 else ''}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((66000, 140000)), m=sized((66000, 140000)), kind=st.sampled_from(["normal", "ties", "int", "skewed"]), shift=st.sampled_from([0.0, 0.01, 0.3]), alt=ALT, ctx=CTX)), n=7, rule="by data kind and shift", thorough=8)
def many_rows(c):
    """Samples whose sizes multiply to more than 32 bits."""
    r = rng(c["seed"])
    a, b = sample(r, c["n"], c["kind"]), sample(r, c["m"], c["kind"])
    b = b + c["shift"] if c["kind"] not in ("ties", "int") else np.where(r.random(c["m"]) < c["shift"] / 3, b + 1, b)
    L = max(len(a), len(b))
    df = pl.DataFrame({"a": np.r_[a, [NAN] * (L - len(a))], "b": np.r_[b, [NAN] * (L - len(b))]})
    o = S.mannwhitneyu(a, b, alternative=c["alt"], method="asymptotic", use_continuity=True)
    expect(one(c["ctx"], df, pds.mann_whitney_u("a", "b", alternative=c["alt"])), o.statistic, o.pvalue, "mann-whitney", 1e-12, 1e-6)
    o = S.ks_2samp(a, b, method="asymp")
    got = one(c["ctx"], df, pds.ks_2samp("a", "b"))
    check_close(got["statistic"], o.statistic, "ks statistic", 1e-9, 1e-12)
    check_close(got["pvalue"], np.sqrt(-np.log(0.05 / 2) / 2 * (len(a) + len(b)) / (len(a) * len(b))), "ks threshold", 1e-10, 1e-12)
    o = S.ttest_ind(a, b, equal_var=False, alternative=c["alt"])
    expect(one(c["ctx"], df, pds.ttest_ind("a", "b", alternative=c["alt"], equal_var=False)), o.statistic, o.pvalue, "welch", 1e-7, 1e-5)
    o = S.ttest_1samp(a, 0.0, alternative=c["alt"])
    expect(one(c["ctx"], df, pds.ttest_1samp("a", 0.0, alternative=c["alt"])), o.statistic, o.pvalue, "one sample", 1e-7, 1e-5, 10)
    o = S.normaltest(a)
    expect(one(c["ctx"], df, pds.normal_test("a")), o.statistic, o.pvalue, "normality", 1e-5, 1e-3)
    g = np.r_[np.zeros(len(a), int), np.ones(len(b), int)]
    d2 = pl.DataFrame({"x": np.r_[a, b], "g": g, "h": (np.r_[a, b] > 0.4).astype(int)})
    o = S.f_oneway(a, b)
    expect(one(c["ctx"], d2, pds.f_test("x", group="g")), o.statistic, o.pvalue, "anova", 1e-6, 1e-5, 1.0)
    o = S.chi2_contingency([[(a > 0.4).sum(), (a <= 0.4).sum()], [(b > 0.4).sum(), (b <= 0.4).sum()]], correction=False)
    expect(one(c["ctx"], d2, pds.chi2("g", "h")), o.statistic, o.pvalue, "chi-squared", 1e-8, 1e-6, 1.0)
    return f"{c['kind']} {c['shift']}"


@law(st.fixed_dictionaries(dict(seed=seeds, n=sized((1, 12), (13, 80), (81, 600)), k=sized((1, 6), (1, 6), (7, 40)), l=sized((1, 6), (1, 6), (7, 40)), dep=st.sampled_from([0, 0.3, 0.9, 1]),
                                kinds=st.tuples(st.sampled_from(["str", "int", "bool"]), st.sampled_from(["str", "int", "bool"])), ctx=CTX, cuts=cuts_st)), n=700,
     rule="by table shape", thorough=8)
def chi_square(c):
    r = rng(c["seed"])
    n = c["n"]
    a = r.choice(c["k"], n, p=r.dirichlet(np.ones(c["k"])))
    b = np.where(r.random(n) < c["dep"], a % c["l"], r.choice(c["l"], n))

    def col(v, k):
        if k == "str":
            return pl.Series([f"v{i}" if i else "" for i in v])
        if k == "bool":
            return pl.Series(v % 2 == 0)
        return pl.Series(v - 2)

    A, B = col(a, c["kinds"][0]), col(b, c["kinds"][1])
    df = pl.DataFrame({"a": chunk(A, c["cuts"]), "b": chunk(B, c["cuts"][::-1])})
    la, lb = A.to_list(), B.to_list()
    ua, ub = sorted(set(la)), sorted(set(lb))
    T = np.array([[sum(1 for x, y in zip(la, lb) if x == p and y == q) for q in ub] for p in ua], float)
    E = T.sum(1, keepdims=True) * T.sum(0, keepdims=True) / n
    stat = ((T - E) ** 2 / E).sum()
    dof = (len(ua) - 1) * (len(ub) - 1)
    p = float(special.chdtrc(dof, stat)) if dof else 1.0
    o = S.chi2_contingency(T, correction=False)
    check_close(stat, o.statistic, "HARNESS chi2 reference", 1e-8, 1e-8)
    got = one(c["ctx"], df, pds.chi2("a", "b"))
    expect(got, stat, p, "chi2", 1e-9, 1e-8, 1.0)
    expect(one("select", df, pds.chi2("b", "a")), stat, p, "chi2 of the swapped columns", 1e-9, 1e-8)
    full = df.select(pds.chi2("a", "b", return_full=True).alias("o")).unnest("o")
    check_eq(full.columns, ["statistic", "pvalue", "dof", "a", "b", "E[freq]"], "chi2 full fields")
    check_eq(full.height, len(ua) * len(ub), "cells of the expected table")
    for row in full.to_dicts():
        expect(row, stat, p, "chi2 full", 1e-9, 1e-8)
        check_eq(row["dof"], dof, "degrees of freedom")
        check_close(row["E[freq]"], E[ua.index(row["a"]), ub.index(row["b"])], "expected frequency", 1e-12, 1e-12)
    if len({(x["a"], x["b"]) for x in full.to_dicts()}) != full.height:
        fail("a cell is repeated in the expected table")
    return f"{len(ua)}x{len(ub)}" if dof else "one level"


@law(st.fixed_dictionaries(dict(base, m=sized((18, 40), (41, 400), (401, 3000)))), n=600, rule="by data kind", thorough=8)
def normality(c):
    k = c["kind"]
    r, df, a, b = two(dict(c, n=c["m"]))
    n = len(a)
    if n < 20:
        if not raises(lambda: df.select(pds.normal_test("a"))):
            fail("normality test of fewer than 20 values gave an answer")
        return "small"
    if n < 2 or a.std() < 1e-9 * (1 + abs(a).max()):
        raise Skip
    # D'Agostino and Pearson, written from the papers
    m = a - a.mean()
    m2, m3, m4 = (m**2).mean(), (m**3).mean(), (m**4).mean()
    g1, b2 = m3 / m2**1.5, m4 / m2**2
    y = g1 * np.sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    be = 3 * (n**2 + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    W2 = np.sqrt(2 * (be - 1)) - 1
    z1 = np.arcsinh(y / np.sqrt(2 / (W2 - 1))) / np.sqrt(0.5 * np.log(W2))
    Eb = 3 * (n - 1) / (n + 1)
    V = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    x = (b2 - Eb) / np.sqrt(V)
    sb = 6 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * np.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    A = 6 + 8 / sb * (2 / sb + np.sqrt(1 + 4 / sb**2))
    den = 1 + x * np.sqrt(2 / (A - 4))
    if abs(den) < 1e-6:
        raise Skip
    z2 = (1 - 2 / (9 * A) - np.cbrt((1 - 2 / A) / den)) / np.sqrt(2 / (9 * A))
    k2 = z1**2 + z2**2
    if abs(y) > 1e-9:
        check_close(k2, S.normaltest(a).statistic, "HARNESS normality reference", 1e-6, 1e-7)
    tol = 1e-8 * (1 + cond(a) ** 2 / 1e3) * (1 + 1e-3 / abs(den)) * 10
    got = one(c["ctx"], df, pds.normal_test("a"))
    try:
        expect(got, k2, np.exp(-k2 / 2), "normality", tol, tol * (1 + k2))
    except Violation as e:
        # known finding: the sign of the denominator is lost (in a file that counts as a test file, so not repaired)
        if den < 0:
            w2 = (1 - 2 / (9 * A) - np.cbrt((1 - 2 / A) / -den)) / np.sqrt(2 / (9 * A))
            q2 = z1**2 + w2**2
            if close(got["statistic"], q2, tol, tol) and close(got["pvalue"], np.exp(-q2 / 2), tol * (1 + q2) * 40, 1e-14):
                raise Violation(str(e), tag="normal-test-short-tailed") from None
        raise
    return k + (" short-tailed" if den < 0 else "")


@law(st.fixed_dictionaries(dict(df1=st.one_of(st.integers(1, 12), st.integers(1, 5000)), t=st.floats(0, 40, allow_nan=False), alt=ALT, neg=st.booleans())), n=600,
     rule="by alternative", thorough=8)
def student_tail(c):
    """The t distribution itself, through samples built to have a chosen statistic and size."""
    n = c["df1"] + 1
    t = -c["t"] if c["neg"] else c["t"]
    a = np.tile([-1.0, 1.0], n)[:n]
    v = a.var(ddof=1)
    mu = a.mean() - t * np.sqrt(v / n)
    got = pl.DataFrame({"a": a}).select(pds.ttest_1samp("a", float(mu), alternative=c["alt"]).alias("o"))["o"][0]
    tt = got["statistic"]
    check_close(tt, t, "t statistic", 1e-9, 1e-9 * (1 + abs(t)))
    p = {"two-sided": 2 * S.t.sf(abs(tt), n - 1), "less": S.t.cdf(tt, n - 1), "greater": S.t.sf(tt, n - 1)}[c["alt"]]
    expect(got, tt, p, "t distribution", 1e-9, 1e-7)
    return c["alt"]


@law(st.fixed_dictionaries(dict(base, kind=st.sampled_from(["normal", "ties", "heavy", "skewed", "apart", "int"]), n=sized((10, 60), (61, 200)), dirt=st.just(0), a=POW2, alt=ALT)), n=200, rule="by scale", thorough=8)
def scales(c):
    """No test depends on the unit of measurement."""
    r, df, a, b = two(c, equal=True, dirt=False)
    usable(a, b)
    f = 2.0 ** c["a"]
    df = df.cast(pl.Float64).with_columns(g=pl.Series(r.integers(0, 3, len(a))), z=pl.Series(r.integers(0, 2, len(a))))
    sc = df.with_columns(pl.col("a", "b") * f)
    F = {k: (e, e, 1.0) for k, e in (
        ("welch", pds.ttest_ind("a", "b", alternative=c["alt"], equal_var=False)), ("student", pds.ttest_ind("a", "b", alternative=c["alt"], equal_var=True)),
        ("mann-whitney", pds.mann_whitney_u("a", "b", alternative=c["alt"])), ("ks", pds.ks_2samp("a", "b")), ("binary ks", pds.ks_2samp("z", "b", is_binary=True)))}
    if df["g"].n_unique() > 1:
        F["anova"] = (pds.f_test("a", group="g"),) * 2 + (1.0,)
    if c["kind"] in ("normal", "skewed", "heavy", "apart") and len(a) > 20:
        F["normality"] = (pds.normal_test("a"),) * 2 + (1.0,)
    F["one sample"] = (pds.ttest_1samp("a", 0.5, alternative=c["alt"]), pds.ttest_1samp("a", 0.5 * f, alternative=c["alt"]), 1.0)
    F["from statistics"] = tuple(pds.ttest_ind_from_stats("a", float(b.mean()) * s, float(b.var(ddof=1)) * s * s, len(b), alternative=c["alt"], equal_var=False) for s in (1.0, f)) + (1.0,)
    homogeneous(df, sc, F)
    return f"{c['kind']} {c['a']}"
