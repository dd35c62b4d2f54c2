"""Random columns: reproducibility, support, distribution; noise and injected nulls."""
import string
from scipy import stats as SS
from checks.common import *

ALNUM = set(string.ascii_letters + string.digits)
PMIN = 1e-10  # a fair sample fails a test of fit once in 10^10


near = lambda v: st.sampled_from([0.04, 0.1, 0.2, 0.3]).flatmap(lambda d: st.sampled_from([v - d, v + d]))  # close to a special value


@st.composite
def dist(draw):
    k = draw(st.sampled_from(["random", "random_int", "random_binomial", "random_exp", "random_normal", "random_str"]))
    num = lambda lo, hi: draw(st.one_of(st.integers(lo, hi), st.floats(lo, hi, allow_nan=False)))
    if k == "random":
        a = draw(st.one_of(st.just(0.0), near(0.0), floats(-100, 100), st.integers(-100, 100)))
        w = draw(st.one_of(st.just(1.0), near(1.0), st.floats(1e-3, 1e4), st.integers(1, 50)))
        p = [a, a + w]
    elif k == "random_int":
        a = draw(st.one_of(st.integers(-20, 20), st.sampled_from([-(2**31), 2**31 - 3])))
        w = draw(st.one_of(st.integers(1, 12), st.integers(1, 1000), st.just(2**31)))
        p = [a, min(a + w, 2**31 - 1)]
        if p[0] >= p[1]:
            p = [p[1] - 1, p[1]]
    elif k == "random_binomial":
        p = [draw(st.one_of(st.integers(1, 12), st.integers(1, 2000))), draw(st.one_of(st.floats(1e-6, 1.0), st.sampled_from([0.0, 1.0, 0.5, 1e-3, 0.999])))]
    elif k == "random_exp":
        p = [draw(st.one_of(st.just(1.0), near(1.0), st.floats(1e-2, 100.0), st.integers(1, 9)))]
    elif k == "random_normal":
        p = [draw(st.one_of(st.just(0.0), near(0.0), floats(-50, 50), st.integers(-3, 3))), draw(st.one_of(st.just(1.0), near(1.0), st.floats(1e-2, 30.0), st.integers(1, 5)))]
    else:
        a = draw(st.integers(0, 12))
        p = [a, a + draw(st.integers(0, 12))]
    return dict(k=k, p=p)


def expr(c, seed, length=None, as_expr=False):
    p = c["p"]
    if as_expr and c["k"] in ("random", "random_int", "random_normal"):
        p = [pl.lit(v) for v in p]
    kw = {} if length is None else dict(length=length)
    return getattr(pds, c["k"])(*p, seed=seed, **kw).alias("o")


def support(c, s, n):
    k, p = c["k"], c["p"]
    check_eq(len(s), n, f"length of {k}")
    check_eq(s.null_count(), 0, f"nulls of {k}")
    check_eq(s.dtype, {"random_int": pl.Int32, "random_binomial": pl.UInt64, "random_str": pl.String}.get(k, pl.Float64), f"dtype of {k}")
    if not n:
        return
    if k == "random_str":
        L = s.str.len_chars()
        if not (L.min() >= p[0] and L.max() <= p[1]):
            fail("length of a random string", lengths=L.to_list()[:10], p=p)
        if not set("".join(s.to_list())) <= ALNUM:
            fail("alphabet of random strings", chars=sorted(set("".join(s.to_list())) - ALNUM))
        return
    lo, hi = s.min(), s.max()
    if s.dtype == pl.Float64 and not s.is_finite().all():
        fail(f"{k} is not finite")
    ok = {"random": lambda: p[0] <= lo and hi < p[1], "random_int": lambda: p[0] <= lo and hi < p[1], "random_binomial": lambda: 0 <= lo and hi <= p[0], "random_exp": lambda: lo >= 0, "random_normal": lambda: True}[k]()
    if not ok:
        fail(f"{k}{p} out of its support", min=lo, max=hi)


def frame(n, cuts):
    return chunk_df(pl.DataFrame({"a": np.arange(n) * 1.0, "g": np.arange(n) % 3}), cuts)


@law(st.fixed_dictionaries(dict(d=dist(), n=sized((0, 20), (0, 300)), s1=st.integers(0, 2**64 - 1), s2=st.integers(0, 2**20), cuts=cuts_st, ex=st.booleans(), how=st.sampled_from(["len", "int", "expr"]))), n=800,
     rule="by distribution; at least 20 rows", thorough=10)
def seeded_columns(c):
    d, n, s1 = c["d"], c["n"], c["s1"]
    df = frame(n, c["cuts"])
    ln = {"len": None, "int": n, "expr": pl.col("a").len()}[c["how"]]
    e = expr(d, s1, ln, c["ex"])
    a = df.select(e)["o"]
    support(d, a, n)
    b = {"with": df.with_columns(expr(d, s1))["o"], "lazy": df.lazy().select("a", expr(d, s1)).collect()["o"], "one chunk": df.rechunk().select(expr(d, s1))["o"],
         "filter": df.lazy().with_columns(expr(d, s1)).filter(pl.col("g") < 5).collect()["o"]}
    for w, x in b.items():
        if not x.equals(a):
            fail(f"{d['k']}: another column for the same seed ({w})", first=a.head(5).to_list(), second=x.head(5).to_list())
    if n:
        l, h = df.lazy().with_columns(expr(d, s1)).filter(pl.col("g") == 1).collect()["o"], df.with_columns(expr(d, s1)).filter(pl.col("g") == 1)["o"]
        if not l.equals(h):
            fail(f"{d['k']}: the values depend on a later filter")
        ov = df.select("g", expr(d, s1).over("g"))
        for g in range(min(n, 3)):
            x = ov.filter(pl.col("g") == g)["o"]
            w = df.filter(pl.col("g") == g).select(expr(d, s1))["o"]
            if not x.equals(w):
                fail(f"{d['k']} over a group is not the one of the group alone", got=x.to_list()[:5], want=w.to_list()[:5])
    if c["s2"] != s1 and n >= 20 and d["k"] in ("random", "random_exp", "random_normal"):
        o = df.select(expr(d, c["s2"]))["o"]
        if o.equals(a):
            fail(f"{d['k']}: the same column for two seeds", seeds=(s1, c["s2"]))
        u, v = df.select(expr(d, None))["o"], df.select(expr(d, None).alias("o"))["o"]
        support(d, u, n)
        if u.equals(v):
            fail(f"{d['k']}: the same column twice without a seed")
    return d["k"] if n >= 20 else None


@law(st.fixed_dictionaries(dict(d=dist(), s=st.integers(0, 2**40))), n=360, rule="by distribution", thorough=8)
def goodness_of_fit(c):
    d, n = c["d"], 20000
    k, p = d["k"], d["p"]
    s = pl.select(expr(d, c["s"], n))["o"]
    support(d, s, n)

    def chi(obs, pr, what):
        pr = np.asarray(pr, float)
        keep = pr * n >= 5
        o, q = [int(x) for x in np.asarray(obs)[keep]], list(pr[keep])
        if (~keep).any():
            o.append(n - sum(o))
            q.append(max(1 - sum(q), 0))
            if q[-1] * n < 5:
                # merge a thin tail into the likeliest value
                j = int(np.argmax(q[:-1]))
                o[j] += o.pop()
                q[j] += q.pop()
        if len(o) > 1:
            pv = SS.chisquare(o, np.array(q) / sum(q) * sum(o)).pvalue
            if pv < PMIN:
                fail(f"{k}{p}: {what} do not fit the distribution", p_value=pv, observed=o[:20], expected=[x * n for x in q[:20]])

    if k == "random_str":
        L = s.str.len_chars().to_numpy()
        chi([(L == v).sum() for v in range(p[0], p[1] + 1)], [1 / (p[1] - p[0] + 1)] * (p[1] - p[0] + 1), "lengths") if p[0] < p[1] else None
        t = "".join(s.to_list())[:n]
        if len(t) == n:
            chi([t.count(ch) for ch in sorted(ALNUM)], [1 / 62] * 62, "characters")
        return k
    x = s.to_numpy().astype(float)
    if k == "random_int" and p[1] - p[0] <= 1000:
        chi(np.bincount((x - p[0]).astype(int), minlength=p[1] - p[0]), [1 / (p[1] - p[0])] * (p[1] - p[0]), "values")
    elif k == "random_binomial":
        chi(np.bincount(x.astype(int), minlength=p[0] + 1), SS.binom.pmf(np.arange(p[0] + 1), p[0], p[1]), "values")
    else:
        D = {"random": lambda: SS.uniform(p[0], p[1] - p[0]), "random_int": lambda: SS.uniform(p[0], p[1] - p[0]), "random_exp": lambda: SS.expon(scale=1 / p[0]), "random_normal": lambda: SS.norm(*p)}[k]()
        pv = SS.kstest(x, D.cdf).pvalue
        if not pv >= PMIN:
            fail(f"{k}{p}: the sample does not fit the distribution", p_value=pv, mean=x.mean(), std=x.std())
        m, var, kurt = (float(v) for v in D.stats("mvk"))
        if not abs(x.mean() - m) <= 8 * math.sqrt(var / n):
            fail(f"{k}{p}: mean {x.mean()}, not {m}")
        if not abs(((x - m) ** 2).mean() - var) <= 9 * var * math.sqrt((kurt + 2) / n):
            fail(f"{k}{p}: variance {((x - m) ** 2).mean()}, not {var}")
    if x.std() > 0:
        y = pl.select(expr(d, c["s"] + 1, n))["o"].to_numpy().astype(float)
        for what, r in (("consecutive values", np.corrcoef(x[:-1], x[1:])[0, 1]), ("two seeds", np.corrcoef(x, y)[0, 1] if y.std() > 0 else 0.0)):
            if abs(r) > 9 / math.sqrt(n) and not (k == "random_binomial" and p[0] * min(p[1], 1 - p[1]) < 0.01):
                fail(f"{k}{p}: {what} are correlated", r=r)
    return k


noise = st.fixed_dictionaries(dict(seed=st.integers(0, 2**40), n=sized((1, 30), (1, 300)), dt=st.sampled_from(["f64", "f64", "f32"]), nulls=st.sampled_from([0, 0, 0.3]), sp=st.booleans(), vs=seeds, cuts=cuts_st, scale=st.sampled_from([0.0, 1.0, 100.0]),
                                   eps=st.one_of(st.sampled_from([0.0, 1e-5, -0.5, 1, 0.1]), st.floats(1e-3, 10)), ctx=st.sampled_from(["select", "lazy", "over"])))


def noisy(c):
    r = rng(c["vs"])
    v = r.normal(size=c["n"]) * c["scale"]
    v = [None if r.random() < c["nulls"] else float(x) for x in v]
    if c["sp"]:
        v = [x if r.random() < 0.8 else [NAN, math.inf, -math.inf][r.integers(3)] for x in v]
    s = pl.Series("a", v, dtype=pl.Float64)
    if c["dt"] == "f32":
        s = s.cast(pl.Float32)
    return chunk_df(pl.DataFrame([s, pl.Series("g", np.arange(c["n"]) % 2)]), c["cuts"])


def run(df, e, ctx):
    e = e.alias("o")
    if ctx == "select":
        return df.select(e)["o"]
    if ctx == "lazy":
        return df.lazy().with_columns(e).collect()["o"]
    return df.select(e.over("g"))["o"]


def plain(s):
    return str([None if x is None else x + 0.0 for x in s.to_list()])  # -0.0 reads as 0.0


def unchanged_specials(a, o, what):
    check_eq(o.dtype, a.dtype, what + ": dtype")
    check_eq(len(o), len(a), what + ": length")
    for x, y in zip(a.to_list(), o.to_list()):
        if x is None or not math.isfinite(x):
            if not (x is y or (y is not None and (x == y or (math.isnan(x) and math.isnan(y))))):
                fail(what + ": a null or special value changed", value=x, got=y)
        elif y is None or not math.isfinite(y):
            fail(what + ": a number became null or non-finite", value=x, got=y)


@law(noise, n=600, rule="by dtype, nulls, context", thorough=10)
def perturbing(c):
    df = noisy(c)
    a = df["a"]
    keep = df.clone()
    for pos in (False, True):
        for f in (lambda s: pds.perturb("a", c["eps"], pos, seed=s), lambda s: pds.add_noise(pl.col("a"), "uniform", epsilon=c["eps"], positive=pos, seed=s)):
            o = run(df, f(c["seed"]), c["ctx"])
            unchanged_specials(a, o, "perturb")
            ep = abs(c["eps"])
            lo, hi = (0.0, ep) if pos else (-ep / 2, ep / 2)
            ulp = (2.0**-23 if c["dt"] == "f32" else 2.0**-52)
            for x, y in zip(a.to_list(), o.to_list()):
                if x is not None and math.isfinite(x):
                    t = 2 * ulp * (abs(x) + ep)
                    if not lo - t <= y - x <= hi + t:
                        fail("perturb moved a value too far", value=x, to=y, epsilon=c["eps"], positive=pos)
                    if c["dt"] == "f64" and x == 0 and ep > 0 and not lo <= y < hi:
                        fail("perturb of 0 outside its range", to=y, epsilon=c["eps"], positive=pos)
            if not run(df, f(c["seed"]), c["ctx"]).equals(o, null_equal=True) and "nan" not in str(o.to_list()):
                fail("perturb: another column for the same seed")
            if not run(df.rechunk(), f(c["seed"]), c["ctx"]).equals(o, null_equal=True):
                fail("perturb: the chunk layout changes the noise")
    l = df.lazy().with_columns(pds.perturb("a", c["eps"], seed=1).alias("o")).filter(pl.col("g") == 1).collect()["o"]
    if str(l.to_list()) != str(df.with_columns(pds.perturb("a", c["eps"], seed=1).alias("o")).filter(pl.col("g") == 1)["o"].to_list()):
        fail("perturb: the noise depends on a later filter")
    check_eq(str(df.to_dict(as_series=False)), str(keep.to_dict(as_series=False)), "the input frame")
    return c["dt"] + ("+null" if c["nulls"] else "") + c["ctx"]


@law(noise, n=500, rule="by dtype, nulls, context", thorough=10)
def jittering(c):
    df = noisy(c)
    a = df["a"]
    sd = abs(c["eps"])
    A = a.to_list()
    J = {}
    for k, f in (("num", lambda s: pds.jitter("a", sd, seed=s)), ("expr", lambda s: pds.jitter(pl.col("a"), pl.lit(float(sd)), seed=s)), ("noise", lambda s: pds.add_noise("a", std=sd, seed=s)),
                 ("gauss", lambda s: pds.add_noise("a", "gaussian", std=sd, seed=s))):
        o = run(df, f(c["seed"]), c["ctx"])
        unchanged_specials(a, o, "jitter")
        J[k] = plain(o)
        for x, y in zip(A, o.to_list()):
            # 9 standard deviations: once in 10^18
            if x is not None and math.isfinite(x) and not abs(y - x) <= 9 * sd + 1e-6 * (1 + abs(x)):
                fail("jitter moved a value too far", value=x, to=y, std=sd)
        if plain(run(df.rechunk(), f(c["seed"]), c["ctx"])) != J[k]:
            fail("jitter: another column for the same seed, or the chunk layout changes the noise")
    if len(set(J.values())) != 1:
        fail("jitter and add_noise differ for the same seed", got=J)
    l = df.lazy().with_columns(pds.jitter("a", float(sd), seed=1).alias("o")).filter(pl.col("g") == 1).collect()["o"]
    if str(l.to_list()) != str(df.with_columns(pds.jitter("a", float(sd), seed=1).alias("o")).filter(pl.col("g") == 1)["o"].to_list()):
        fail("jitter: the noise depends on a later filter")
    return c["dt"] + ("+null" if c["nulls"] else "") + c["ctx"]


@law(st.fixed_dictionaries(dict(seed=st.integers(0, 2**40), eps=st.floats(0.01, 50), pos=st.booleans(), kind=st.sampled_from(["uniform", "gaussian"]), f32=st.booleans(), cuts=cuts_st)), n=100, rule="by kind, dtype", thorough=8)
def noise_distribution(c):
    n = 20000
    df = chunk_df(pl.DataFrame({"a": pl.Series(np.zeros(n), dtype=pl.Float32 if c["f32"] else pl.Float64)}), [7 * k for k in c["cuts"]])
    e = c["eps"]
    x = df.select(pds.add_noise("a", c["kind"], seed=c["seed"], **(dict(epsilon=e, positive=c["pos"]) if c["kind"] == "uniform" else dict(std=e))))["a"].to_numpy().astype(float)
    D = SS.norm(0, e) if c["kind"] == "gaussian" else SS.uniform(0 if c["pos"] else -e / 2, e)
    pv = SS.kstest(x, D.cdf).pvalue
    if not pv >= PMIN:
        fail(f"{c['kind']} noise does not fit its distribution", p_value=pv, epsilon=e, positive=c["pos"], mean=x.mean(), std=x.std())
    r = np.corrcoef(x[:-1], x[1:])[0, 1]
    if abs(r) > 9 / math.sqrt(n) or len(np.unique(x)) < n // 4:
        fail(f"{c['kind']} noise repeats", r=r, distinct=len(np.unique(x)))
    return c["kind"] + str(c["f32"])


@law(st.fixed_dictionaries(dict(seed=st.integers(0, 2**40), pct=st.floats(0.01, 0.99), n=sized((1, 50), (2000, 6000)), old=st.sampled_from([0, 0, 0.3]), dt=st.sampled_from(["f64", "i64", "str", "bool", "list"]), cuts=cuts_st, ctx=st.sampled_from(["select", "lazy", "over"]), vs=seeds)), n=300,
     rule="by dtype, old nulls; at least 2000 rows", thorough=8)
def injected_nulls(c):
    n = c["n"]
    r = rng(c["vs"])
    v = r.integers(0, 2 if c["dt"] == "bool" else 50, n)
    conv = {"f64": float, "i64": int, "str": str, "bool": bool, "list": lambda q: [int(q)]}[c["dt"]]
    s = pl.Series("a", [None if r.random() < c["old"] else conv(q) for q in v], dtype={"f64": pl.Float64, "i64": pl.Int64, "str": pl.String, "bool": pl.Boolean, "list": pl.List(pl.Int64)}[c["dt"]])
    df = chunk_df(pl.DataFrame([s, pl.Series("g", np.arange(n) % 2)]), c["cuts"])
    e = lambda: pds.random_null("a", c["pct"], seed=c["seed"])
    o = run(df, e(), c["ctx"])
    check_eq(o.dtype, s.dtype, "random_null: dtype")
    check_eq(len(o), n, "random_null: length")
    hit = 0
    for x, y in zip(s.to_list(), o.to_list()):
        if y is not None and x != y:
            fail("random_null changed a value", value=x, to=y)
        hit += x is not None and y is None
    if not run(df, e(), c["ctx"]).equals(o, null_equal=True):
        fail("random_null: another column for the same seed")
    if n >= 2000:
        m = n - s.null_count()
        if c["ctx"] == "over":  # both groups see the same draws
            m /= 2
            hit /= 2
        sd = math.sqrt(m * c["pct"] * (1 - c["pct"]))
        if abs(hit - m * c["pct"]) > 8 * sd + 2:
            fail("random_null: rate of the nulls", pct=c["pct"], values=m, nulls=hit)
        return c["dt"] + ("+old" if c["old"] else "") + c["ctx"]
    for bad in (0.0, 1.0, -0.1, 1.5):
        if not raises(lambda: pds.random_null("a", bad)):
            fail("random_null accepts a percentage outside (0, 1)", pct=bad)


@law(st.fixed_dictionaries(dict(seed=st.integers(0, 2**40), n=sized((2, 40), (2, 300)), vs=seeds, cuts=cuts_st, k=st.sampled_from(["random", "random_int", "random_normal", "jitter"]))), n=200, rule="by function", thorough=8)
def column_parameters(c):
    v = rng(c["vs"]).integers(-40, 40, c["n"]) * 1.0
    if v.max() - v.min() < 2:
        raise Skip
    df = chunk_df(pl.DataFrame({"a": v}), c["cuts"])
    lo, hi, m, sd = float(v.min()), float(v.max()), float(v.mean()), float(v.std(ddof=1))
    A = pl.col("a")
    x, y = {"random": (lambda: pds.random(A.min(), A.max(), seed=c["seed"]), lambda: pds.random(lo, hi, seed=c["seed"])), "random_int": (lambda: pds.random_int(A.min(), A.max(), seed=c["seed"]), lambda: pds.random_int(int(lo), int(hi), seed=c["seed"])),
            "random_normal": (lambda: pds.random_normal(A.mean(), A.std(), seed=c["seed"]), lambda: pds.random_normal(m, sd, seed=c["seed"])), "jitter": (lambda: pds.jitter("a", A.std(), seed=c["seed"]), lambda: pds.jitter("a", sd, seed=c["seed"]))}[c["k"]]
    check_seq(df.select(x().alias("o"))["o"], df.select(y().alias("o"))["o"], f"{c['k']} with column parameters", 1e-9, 1e-9)
    return c["k"]
