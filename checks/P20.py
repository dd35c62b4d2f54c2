"""Sampling and splitting: every operation against counting over row numbers."""
import collections
import itertools
import polars_ds.sample_and_split as sa
from scipy import stats as SS
from checks.common import *

shape = dict(n=sized((0, 6), (0, 40), (0, 300)), vs=seeds, cuts=cuts_st, lazy=st.sampled_from([False, False, True, "filtered", "joined"]), lv=st.integers(1, 5), nulls=st.sampled_from([0, 0, 0.3]), seed=st.one_of(st.just(None), st.integers(0, 2**40)))


def make(c):
    """A frame with row numbers, level columns of several types (skewed, with nulls) and payload; and what is passed in."""
    r = rng(c["vs"])
    n = c["n"]
    lev = lambda k: [None if r.random() < c["nulls"] else int(v) for v in np.minimum(r.geometric(0.4, n) - 1, k - 1)]
    g, h = lev(c["lv"]), lev(3)
    df = pl.DataFrame({"i": pl.Series(range(n), dtype=pl.Int64), "g": pl.Series(g, dtype=pl.Int64), "s": pl.Series([None if v is None else f"L{v}" for v in g], dtype=pl.String),
                       "h": pl.Series(h, dtype=pl.Int32), "b": pl.Series([None if v is None else v == 0 for v in h], dtype=pl.Boolean),
                       "x": pl.Series([float(v) if r.random() < 0.8 else [None, NAN, math.inf][r.integers(3)] for v in r.normal(size=n)], dtype=pl.Float64),
                       "l": pl.Series([[int(v)] * (int(v) % 3) for v in r.integers(0, 9, n)], dtype=pl.List(pl.Int64))})
    df = chunk_df(df, c["cuts"])
    if c["lazy"] is False:
        return df, df
    if c["lazy"] is True:
        return df, df.lazy()
    if c["lazy"] == "filtered":
        extra = pl.concat([df, df.with_columns(i=pl.col("i") + n)]).with_columns(k=pl.col("i") < n)
        return df, extra.lazy().filter(pl.col("k")).select(df.columns)
    return df, df.lazy().select("i", "g", "s", "h", "b").join(df.lazy().select("i", "x", "l"), on="i", maintain_order="left")


def rows(df, out, what):
    """Row numbers of the output, after checking that its rows are rows of the input, each at most once."""
    check_eq(type(out), pl.DataFrame, what + ": type")
    check_eq(out.schema, df.schema, what + ": schema")
    ids = out["i"].to_list()
    if len(set(ids)) != len(ids):
        fail(what + ": a row appears twice", rows=[k for k, v in collections.Counter(ids).items() if v > 1][:5])
    if not set(ids) <= set(range(df.height)):
        fail(what + ": a row that is not in the frame", rows=sorted(set(ids) - set(range(df.height)))[:5])
    if not out.equals(df[ids] if ids else df.head(0), null_equal=True):
        fail(what + ": a row was altered")
    return ids


def twice(df, f, seed, what):
    """Runs f; with a seed, runs it again (also on the plain frame in one chunk) and compares."""
    ids = rows(df, f(None), what)
    if seed is not None:
        for again in (None, df, df.rechunk().lazy()):
            if sorted(rows(df, f(again), what)) != sorted(ids):
                fail(what + ": other rows for the same seed")
    return ids


@law(st.fixed_dictionaries(dict(shape, v=st.one_of(st.integers(1, 50), st.floats(0.001, 0.999), st.sampled_from([0.5, 0.1, 0.25, 1, 10**6])))), n=600, rule="by kind of value and input")
def sampling(c):
    df, x = make(c)
    keep = df.clone()
    v, n = c["v"], c["n"]
    ids = twice(df, lambda a: sa.sample(x if a is None else a, v, seed=c["seed"]), c["seed"], "sample")
    if isinstance(v, int):
        check_eq(len(ids), min(v, n), "number of sampled rows")
    elif abs(len(ids) - n * v) >= 1:
        fail("fraction of sampled rows", rows=len(ids), of=n, fraction=v)
    for bad in (0, -1, 0.0, 1.0, 1.5, -0.2, "1", None):
        if not raises(lambda: sa.sample(df, bad)):
            fail("sample accepts this amount", value=bad)
    check_eq(df.equals(keep, null_equal=True), True, "the input frame is unchanged")
    return None if n < 2 else type(v).__name__ + str(c["lazy"])


BY = {"g": lambda: pl.col("g"), "s": lambda: pl.col("s"), "b": lambda: pl.col("b"), "h": lambda: pl.col("h"), "mod": lambda: (pl.col("i") % 3).alias("m"), "cmp": lambda: pl.col("g") > 0, "count": lambda: pl.col("h").alias("count"), "unnamed": lambda: pl.col("s").alias(""), "when": lambda: pl.when(pl.col("i") < 3).then(pl.lit("a")).otherwise(pl.lit("b"))}


@law(st.fixed_dictionaries(dict(shape, by=st.sampled_from(sorted(BY)), ctrl=st.lists(st.sampled_from(sorted(BY)), max_size=2, unique=True), tv=st.one_of(st.none(), st.integers(1, 30)), aslist=st.booleans())), n=600,
     rule="by control columns, target volume; at least two levels")
def volume_neutral(c):
    df, x = make(c)
    ctrl = [k for k in c["ctrl"] if k != c["by"]]
    con = None if not ctrl else [BY[k]() for k in ctrl] if len(ctrl) > 1 or c["aslist"] else BY[ctrl[0]]()
    ids = twice(df, lambda a: sa.volume_neutral(x if a is None else a, BY[c["by"]](), con, c["tv"], c["seed"]), c["seed"], "volume_neutral")
    lab = df.select(*[BY[k]().alias(f"k{j}") for j, k in enumerate([c["by"]] + ctrl)]).rows()
    tot = collections.defaultdict(collections.Counter)
    got = collections.defaultdict(collections.Counter)
    for i, t in enumerate(lab):
        tot[t[1:]][t[0]] += 1
    for i in ids:
        got[lab[i][1:]][lab[i][0]] += 1
    for cell, cnt in tot.items():
        want = min(cnt.values())
        if c["tv"] is not None:
            want = min(want, c["tv"])
        if any(got[cell][k] != want for k in cnt):
            fail("volume_neutral: levels of one cell differ from the target", cell=cell, have=dict(cnt), kept=dict(got[cell]), target=want)
    return f"{len(ctrl)}{'t' if c['tv'] else ''}" if any(len(v) > 1 for v in tot.values()) else None


@law(st.fixed_dictionaries(dict(shape, conds=st.lists(st.tuples(st.sampled_from(["g", "s", "h", "x", "b", "i"]), st.integers(0, 4), st.one_of(st.integers(1, 20), st.floats(0.01, 0.99), st.sampled_from([0.5, 0.1]))), min_size=0, max_size=3))), n=800,
     rule="by number of conditions, nulls")
def downsampling(c):
    df, x = make(c)
    mk = {"g": lambda k: pl.col("g") == k, "s": lambda k: pl.col("s") == f"L{k}", "h": lambda k: pl.col("h") == k, "x": lambda k: pl.col("x") > 0.3 * k - 0.5, "b": lambda k: pl.col("b"), "i": lambda k: pl.col("i") % 5 == k}
    conds = [(mk[a](k), v) for a, k, v in c["conds"]]
    ids = set(twice(df, lambda a: sa.downsample(x if a is None else a, *conds, seed=c["seed"]), c["seed"], "downsample"))
    true = [set(np.nonzero(df.select(e.fill_null(False).alias("o"))["o"].to_numpy())[0].tolist()) for e, _ in conds]
    size = lambda T, v: min(v, len(T)) if isinstance(v, int) else int(len(T) * v)
    free = set(range(c["n"])).difference(*true) if conds else set(range(c["n"]))
    if not free <= ids:
        fail("downsample dropped a row for which no condition is true", rows=sorted(free - ids)[:5], conditions=c["conds"])
    for j, ((e, v), T) in enumerate(zip(conds, true)):
        alone = not any(T & U for k, U in enumerate(true) if k != j)
        k, m = len(ids & T), size(T, v)
        if k > m or (alone and k != m):
            fail("downsample: rows kept where the condition is true", condition=c["conds"][j], of=len(T), kept=k, target=m)
        # what the conditions keep together is at least what is left when each drops its share separately
    if conds and len(set().union(*true)) - len(ids & set().union(*true)) > sum(len(T) - size(T, v) for (e, v), T in zip(conds, true)):
        fail("downsample dropped more rows than the conditions ask for", conditions=c["conds"])
    return f"{len(conds)}{'+null' if c['nulls'] else ''}" if any(true) else None


@law(st.fixed_dictionaries(dict(shape, ratio=st.one_of(st.floats(0.001, 0.999), st.sampled_from([0.5, 0.8, 0.29, 0.3])), one=st.booleans())), n=400, rule="by input; both sides non-empty")
def split_in_two(c):
    df, x = make(c)
    n, q = c["n"], c["ratio"]
    arg = [q] if c["one"] else q
    f = lambda a: sa.split_by_ratio(a, arg, seed=c["seed"])
    parts = f(x)
    check_eq(len(parts), 2, "number of parts")
    A, B = (rows(df, p, "split_by_ratio") for p in parts)
    if sorted(A + B) != list(range(n)):
        fail("split_by_ratio: the two parts do not partition the rows", train=len(A), test=len(B), n=n)
    if abs(len(A) - n * q) >= 1:
        fail("split_by_ratio: size of the first part", size=len(A), n=n, ratio=q)
    if c["seed"] is not None:
        for again in (x, df, df.rechunk().lazy()):
            if [sorted(p["i"].to_list()) for p in f(again)] != [sorted(A), sorted(B)]:
                fail("split_by_ratio: another split for the same seed")
    for bad in (0.0, 1.0, -0.5, 2.0):
        if not raises(lambda: sa.split_by_ratio(df, bad)):
            fail("split_by_ratio accepts this ratio", ratio=bad)
    return str(c["lazy"]) if A and B else None


@law(st.fixed_dictionaries(dict(shape, w=st.lists(st.integers(1, 20), min_size=2, max_size=8), how=st.sampled_from(["exact", "decimal", "third"]), kind=st.sampled_from(["list", "tuple"]))), n=500, rule="by ratios and input; at least two non-empty parts")
def split_in_many(c):
    df, x = make(c)
    n, w = c["n"], c["w"]
    if c["how"] == "third":
        rat = [1 / len(w)] * len(w)
    elif c["how"] == "exact":
        rat = [v / sum(w) for v in w]
    else:
        k = [100 * v // sum(w) for v in w]
        k[0] += 100 - sum(k)
        rat = [v / 100 for v in k]
    arg = tuple(rat) if c["kind"] == "tuple" else rat
    f = lambda a: sa.split_by_ratio(a, arg, seed=c["seed"])
    parts = f(x)
    check_eq(len(parts), len(rat), "number of parts")
    ids = [rows(df, p, "split_by_ratio") for p in parts]
    if sorted(itertools.chain(*ids)) != list(range(n)):
        fail("split_by_ratio: the parts do not partition the rows", sizes=[len(p) for p in ids], n=n, ratios=rat)
    for p, q in zip(ids, rat):
        if abs(len(p) - n * q) > 1 + 1e-6:
            fail("split_by_ratio: size of a part", sizes=[len(p) for p in ids], n=n, ratios=rat)
    if c["seed"] is not None:
        for again in (x, df, df.rechunk().lazy()):
            if [sorted(p["i"].to_list()) for p in f(again)] != [sorted(p) for p in ids]:
                fail("split_by_ratio: another split for the same seed")
    for bad in ([0.5, 0.4], [0.5, 0.6], [0.3, 0.3, 0.3], [0.9, 0.09]):
        if not raises(lambda: sa.split_by_ratio(df, bad)):
            fail("split_by_ratio accepts ratios that do not sum to 1", ratios=bad)
    return c["how"] + str(c["lazy"]) if sum(bool(p) for p in ids) > 1 else None


@law(st.fixed_dictionaries(dict(s0=st.integers(0, 2**40), n=st.integers(4, 30), q=st.sampled_from([0.25, 0.5, 0.6]), k=st.sampled_from(["sample", "count", "volume", "down", "two", "many", "seedless"]))), n=60, rule="by operation", thorough=10)
def every_row_has_the_same_chance(c):
    """300 seeds: how often each row is chosen, and how often two neighbouring rows are chosen together."""
    n, q, k = c["n"], c["q"], c["k"]
    df = pl.DataFrame({"i": range(n), "y": [0] * n})
    m = max(1, round(n * q))
    if k == "volume":
        df = df.with_columns(y=(pl.col("i") < m).cast(pl.Int64))
        if m * 2 == n or m > n - m:
            raise Skip
        pool = list(range(m, n))
    elif k == "down":
        df = df.with_columns(y=(pl.col("i") > 1).cast(pl.Int64))
        pool = list(range(2, n))
        m = min(m, len(pool) - 1)
    else:
        pool = list(range(n))
    T = 300
    hit = collections.Counter()
    both = 0
    sets = set()
    for s in range(T):
        sd = (c["s0"] + s) if k != "seedless" else None
        o = {"sample": lambda: sa.sample(df, m / n + 1e-9, seed=sd) if m < n else df, "count": lambda: sa.sample(df, m, seed=sd), "seedless": lambda: sa.sample(df, m), "volume": lambda: sa.volume_neutral(df, pl.col("y"), seed=sd), "down": lambda: sa.downsample(df, (pl.col("y") == 1, m), seed=sd),
             "two": lambda: sa.split_by_ratio(df, m / n + 1e-9, seed=sd)[0], "many": lambda: sa.split_by_ratio(df, [m / n, (n - m) / n], seed=sd)[0]}[k]()
        I = set(o["i"].to_list()) & set(pool)
        sets.add(tuple(sorted(I)))
        hit.update(I)
        both += sum(a in I and b in I for a, b in zip(pool, pool[1:]))
    N = len(pool)
    p = m / N
    for i in pool:
        if SS.binomtest(hit[i], T, p).pvalue < 1e-11:
            fail(f"{k}: a row is chosen too often or too rarely over {T} seeds", row=i, chosen=hit[i], expected=T * p)
    if math.comb(N, m) > 50 and len(sets) < 20:
        fail(f"{k}: {len(sets)} different choices over {T} seeds")
    p2 = m * (m - 1) / (N * (N - 1)) if N > 1 else 0
    e = T * (N - 1) * p2
    if N > 3 and abs(both - e) > 12 * math.sqrt(T * (N - 1) * max(p, p2) + 1):
        fail(f"{k}: neighbouring rows are chosen together too often or too rarely", got=both, expected=e)
    return k


@law(st.fixed_dictionaries(dict(n=st.integers(1, 10), keep=st.integers(0, 3), k=st.integers(0, 10), vs=seeds, seed=st.integers(0, 2**40), kp=st.booleans())), n=600, rule="by keep; more than one choice")
def columns(c):
    names = [f"c{j}" for j in range(c["n"])]
    rng(c["vs"]).shuffle(names)
    keep = [str(v) for v in rng(c["vs"] + 1).permutation(names)[: c["keep"]]] if c["kp"] else None
    kk = keep or []
    pool = [v for v in names if v not in kk]
    a0, k0 = list(names), None if keep is None else list(keep)
    if c["k"] > len(pool):
        if not raises(lambda: sa.random_cols(names, c["k"], keep, c["seed"])):
            fail("random_cols with too few columns does not complain", pool=len(pool), k=c["k"])
        return None
    o = sa.random_cols(names, c["k"], keep, c["seed"])
    check_eq(o[: len(kk)], kk, "random_cols: the kept columns come first")
    z = o[len(kk):]
    check_eq(len(z), c["k"], "random_cols: number of columns")
    if len(set(z)) != len(z) or not set(z) <= set(pool):
        fail("random_cols: not distinct columns of the pool", got=o, pool=pool)
    check_eq(sa.random_cols(names, c["k"], keep, c["seed"]), o, "random_cols with the same seed")
    check_eq((names, keep), (a0, k0), "random_cols: the arguments")
    for s in (None, 1, 2, 3):
        q = sa.random_cols(names, c["k"], keep, s)[len(kk):]
        if [v for v in names if v in q] != q:
            fail("random_cols: the same columns may come in two orders", got=q)
    return ("keep" if kk else "all") if 0 < c["k"] < len(pool) else None


@law(st.fixed_dictionaries(dict(n=st.integers(2, 6), k=st.integers(1, 5), s0=st.integers(0, 2**30), seeded=st.booleans())), n=40, rule="more than one choice", thorough=10)
def every_set_of_columns_has_the_same_chance(c):
    names = list("abcdef")[: c["n"]]
    if c["k"] >= len(names):
        raise Skip
    T = 40 * math.comb(len(names), c["k"])
    cnt = collections.Counter(tuple(sa.random_cols(names, c["k"], seed=c["s0"] + j if c["seeded"] else None)) for j in range(T))
    for t in itertools.combinations(names, c["k"]):
        if not 3 <= cnt[t] <= 130:
            fail("random_cols: a choice comes too often or too rarely", choice=t, times=cnt[t], expected=40)
    return True


@law(st.fixed_dictionaries(dict(n=sized((66000, 150000)), vs=seeds, seed=st.integers(0, 2**40), q=st.sampled_from([0.5, 0.29, 0.8, 0.9999]), k=st.integers(1, 70000), lazy=st.booleans())), n=4, rule="any")
def many_rows(c):
    """More rows than 16 bits count: the same sizes and partitions."""
    r = rng(c["vs"])
    n, q = c["n"], c["q"]
    lev = r.integers(0, 3, n)
    df = pl.DataFrame({"i": np.arange(n), "g": lev})
    x = df.lazy() if c["lazy"] else df
    ids = lambda d: (d.collect() if isinstance(d, pl.LazyFrame) else d)["i"].to_numpy()
    for v, want in ((q, int(n * q)), (c["k"], min(c["k"], n))):
        o = ids(sa.sample(x, v, seed=c["seed"]))
        if len(set(o.tolist())) != len(o) or abs(len(o) - want) > 1:
            fail("sample of many rows", rows=len(o), want=want, value=v)
    parts = [ids(p) for p in sa.split_by_ratio(x, q, seed=c["seed"])]
    if sorted(np.concatenate(parts).tolist()) != list(range(n)) or abs(len(parts[0]) - n * q) > 1:
        fail("split_by_ratio of many rows", sizes=[len(p) for p in parts], n=n, ratio=q)
    rat = [0.5, 0.25, 0.15, 0.1]
    parts = [ids(p) for p in sa.split_by_ratio(x, rat, seed=c["seed"])]
    if sorted(np.concatenate(parts).tolist()) != list(range(n)) or any(abs(len(p) - n * w) > 1.001 for p, w in zip(parts, rat)):
        fail("split_by_ratio of many rows into several parts", sizes=[len(p) for p in parts], n=n)
    keep = int(np.bincount(lev).min())
    o = ids(sa.volume_neutral(x, by=pl.col("g"), seed=c["seed"]))
    cnt = np.bincount(lev[o], minlength=3)
    if len(set(o.tolist())) != len(o) or cnt.tolist() != [keep] * 3:
        fail("volume_neutral of many rows", counts=cnt.tolist(), want=keep)
    return True
