"""Set-based string similarity and string look-up equal their definitions."""
from checks.strref import *
from polars_ds.exprs.string import str_overlap_coeff


def grams(s, n):
    b = s.encode()
    if not b:
        return set()
    return {b} if len(b) < n else {b[i : i + n] for i in range(len(b) - n + 1)}


def parts(a, b, n):
    if not a or not b:
        return 0, 0, 0
    x, y = grams(a, n), grams(b, n)
    return len(x), len(y), len(x & y)


def div(a, b):
    return a / b if b else NAN


def jac(a, b, n):
    x, y, i = parts(a, b, n)
    return div(i, x + y - i)


def over(a, b, n):
    x, y, i = parts(a, b, n)
    return div(i, min(x, y))


def dice(a, b, n):
    x, y, i = parts(a, b, n)
    return div(2 * i, x + y)


def tversky(a, b, n, al, be):
    x, y, i = parts(a, b, n)
    return div(i, i + al * (x - i) + be * (y - i))


RULE = "a row compares two different non-empty strings with a common letter"
c_st = st.tuples(str_case, st.sampled_from([1, 2, 2, 3, 5]))


def one(c, f, kw, ref, name):
    df, other, pairs = frame(c)
    out = df.select(o=f("a", other, parallel=c["parallel"], **kw))["o"]
    check_eq(out.dtype, pl.Float64, "dtype")
    check_eq(len(out), len(pairs), "length")
    empties = False
    for (a, b), g in zip(pairs, out.to_list()):
        if a is None or b is None:
            check_eq(g, None, f"{name} with null")
            continue
        if not a or not b:
            # no grams at all: the ratio is undefined; it must not look like a similarity
            if g is None or not (math.isnan(g) or g == 0):
                fail(f"{name}({a!r}, {b!r}) with an empty string: {g!r}")
            continue
        w = ref(a, b)
        if not close(g, w, 1e-12, 1e-12):
            fail(f"{name}({a!r}, {b!r}) {kw}: got {g!r}, want {w!r}")
    return c["mode"] if nt(pairs) else None


@law(c_st, n=500, rule=RULE)
def jaccard(case):
    c, n = case
    return one(c, pds.str_jaccard, dict(substr_size=n), lambda a, b: jac(a, b, n), "jaccard")


@law(c_st, n=500, rule=RULE)
def overlap(case):
    c, n = case
    return one(c, str_overlap_coeff, dict(substr_size=n), lambda a, b: over(a, b, n), "overlap")


@law(c_st, n=500, rule=RULE)
def sorensen(case):
    c, n = case
    return one(c, pds.str_sorensen_dice, dict(substr_size=n), lambda a, b: dice(a, b, n), "sorensen_dice")


@law(st.tuples(str_case, st.sampled_from([1, 2, 2, 3, 5]), st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 0.3]), st.sampled_from([0.25, 0.5, 1.0, 0.7, 3.0])),
     n=600, rule=RULE)
def tversky_sim(case):
    c, n, al, be = case
    return one(c, pds.str_tversky_sim, dict(substr_size=n, alpha=al, beta=be), lambda a, b: tversky(a, b, n, al, be), "tversky")


@law(st.tuples(cols_st, st.sampled_from(["jac", "over", "dice"])), n=300, rule=RULE)
def per_group(case):
    (A, B), name = case
    f, ref = dict(jac=(pds.str_jaccard, jac), over=(str_overlap_coeff, over), dice=(pds.str_sorensen_dice, dice))[name]
    n = len(A)
    A = [a or "a" for a in A]
    B = [b or None for b in B]
    k = [i * 7 % 3 for i in range(n)]
    df = pl.DataFrame({"a": pl.Series(A, dtype=pl.String), "b": pl.Series(B, dtype=pl.String), "k": k})
    want = [None if b is None else ref(a, b, 2) for a, b in zip(A, B)]
    g = df.group_by("k", maintain_order=True).agg(o=f("a", "b", parallel=True))
    for key, o in g.iter_rows():
        check_seq(o, [w for w, kk in zip(want, k) if kk == key], f"{name} in group {key}", 1e-12, 1e-12)
    check_seq(df.select(o=f("a", "b").over("k"))["o"], want, f"{name} over", 1e-12, 1e-12)
    return nt(list(zip(A, B)))


@law(st.tuples(cols_st, st.sampled_from([1, 2, 3, 5, 100]), st.sampled_from(["lv", "hamming"]), cuts_st), n=700,
     rule="two or more strings at different distances are within the threshold")
def nearest(case):
    (A, B), th, metric, cuts = case
    w = next((b for b in B if b is not None), "ab")
    df = chunk_df(pl.DataFrame({"a": pl.Series(A, dtype=pl.String)}), cuts)
    out = df.select(o=pds.str_nearest("a", w, threshold=th, metric=metric))["o"]
    check_eq(len(out), 1, "one result")
    ref = lev if metric == "lv" else hamming
    d = [None if a is None else ref(a, w) for a in A]
    ok = [x for x in d if x is not None and x <= th]
    got = out[0]
    if not ok:
        check_eq(got, None, "nothing within the threshold")
        return None
    if got not in A or got is None or ref(got, w) != min(ok):
        fail(f"nearest to {w!r} (threshold {th}, {metric}): got {got!r}, least distance {min(ok)}", A=A)
    # broadcast beside a full-length column
    o2 = df.with_columns(o=pds.str_nearest("a", w, threshold=th, metric=metric))["o"]
    check_eq(set(o2.to_list()), {got}, "broadcast")
    return len(set(ok)) > 1


@law(st.tuples(cols_st, st.sampled_from(["lv", "dlv", "osa", "jw"]), st.sampled_from(["avg", "all", "any"]), st.integers(1, 4), st.sampled_from([0.21, 0.43, 0.61, 0.83]),
               st.lists(st.integers(0, 3), max_size=2)),
     n=700, rule="the answer differs between rows")
def vocab(case):
    (A, B), metric, strat, nv, th, again = case
    voc = [b for b in B if b is not None][:nv] or ["ab"]
    voc += [voc[i % len(voc)] for i in again]  # a vocabulary may list a word twice
    ref = {"lv": norm(lev), "dlv": norm(dlev), "osa": norm(osa), "jw": jw(0.1)}[metric]
    df = pl.DataFrame({"a": pl.Series(A, dtype=pl.String)})
    out = df.select(o=pds.similar_to_vocab("a", voc, th, metric=metric, strategy=strat))["o"].to_list()
    check_eq(len(out), len(A), "length")
    seen = set()
    for a, g in zip(A, out):
        if a is None:
            if g:
                fail("a null row is similar to the vocabulary")
            continue
        s = [ref(a, v) for v in voc]
        if any(abs(x - th) < 1e-9 for x in s) or abs(sum(s) / len(s) - th) < 1e-9:
            continue
        w = {"avg": sum(s) / len(s) >= th, "all": all(x >= th for x in s), "any": any(x >= th for x in s)}[strat]
        check_eq(g, w, f"similar_to_vocab({a!r}, {voc}, {th}, {metric}, {strat})", sims=s)
        seen.add(w)
    # a threshold that is exactly some row's similarity
    sim = {"lv": lambda v: pds.str_leven("a", v, return_sim=True), "dlv": lambda v: pds.str_d_leven("a", v, return_sim=True), "osa": lambda v: pds.str_osa("a", v, return_sim=True), "jw": lambda v: pds.str_jw("a", v)}[metric]
    S = df.select(sim(pl.lit(v, dtype=pl.String)).alias(str(i)) for i, v in enumerate(voc)).rows()
    two = voc[:2] if strat == "avg" else voc
    agg = {"avg": lambda s: sum(s[: len(two)]) / len(two), "all": min, "any": max}[strat]
    vals = [None if None in s else agg(s) for s in S]
    for t in sorted({v for v in vals if v is not None})[:3]:
        out = df.select(o=pds.similar_to_vocab("a", two, t, metric=metric, strategy=strat))["o"].to_list()
        for a, v, g in zip(A, vals, out):
            if v is not None and g is not (v >= t):
                fail(f"similar_to_vocab({a!r}, {two}, {t}, {metric}, {strat}) at the threshold: got {g}, similarity {v}")
    return f"{metric}/{strat}" if len(seen) == 2 else None
