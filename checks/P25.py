"""PartitionHelper: parts, names, lookup, application."""
import warnings
from polars_ds.partition import PartitionHelper
from checks.common import *

words = st.sampled_from(["a", "b", "c", "", "a|b", "|", "b|c", "None", "True", "é|", "a b", "_", "a_b", "b_"])
sep_st = st.sampled_from(["|", "|", "_", "", " ", "::", "\0"])
DT = {"str": pl.String, "cat": pl.Categorical, "bool": pl.Boolean}
frame_st = st.fixed_dictionaries(dict(
    kinds=st.lists(st.sampled_from(sorted(DT)), min_size=1, max_size=4), pool=st.lists(words, min_size=1, max_size=5), n=st.one_of(st.integers(0, 4), st.integers(5, 60)), vs=seeds,
    nulls=st.sampled_from([0, 0, 0.3]), order=seeds, sep=sep_st, lazy=st.booleans(), single=st.booleans(), cuts=cuts_st, tidy=st.booleans()))


def build(c):
    """The frame, the partition columns in some order, the parts by direct grouping: {key: row numbers}."""
    g = np.random.default_rng(c["vs"])
    n = c["n"]
    pool = [w.replace(c["sep"], "") if c["sep"] and c["tidy"] else w for w in c["pool"]]
    cols = {}
    for i, k in enumerate(c["kinds"]):
        v = [bool(g.random() < 0.5) if k == "bool" else pool[g.integers(len(pool))] for _ in range(n)]
        cols[f"k{i}"] = pl.Series([None if g.random() < c["nulls"] else x for x in v], dtype=DT[k])
    cols["x"] = pl.Series(g.integers(-5, 5, n))
    cols["row"] = pl.Series(range(n), dtype=pl.Int64)
    df = pl.DataFrame(cols).select(list(np.random.default_rng(c["order"]).permutation(list(cols))))
    df = df.select(chunk(df[k], c["cuts"]) for k in df.columns)
    by = [f"k{i}" for i in np.random.default_rng(c["order"]).permutation(len(c["kinds"]))]
    if len(by) == 1 and c["single"]:
        by = by[0]
    parts = {}
    for row in df.select([by] if isinstance(by, str) else by).with_row_index("row").iter_rows():
        parts.setdefault(row[1:], []).append(row[0])
    return df, by, parts


@law(frame_st, n=700, rule="by number of columns, nulls, colliding names")
def parts_are_the_groups(c):
    df, by, parts = build(c)
    before = df.clone()
    names = {}
    for k, rows in parts.items():
        names.setdefault(c["sep"].join(str(x) for x in k), []).append(rows)
    what = f"PartitionHelper(by={by!r}, separator={c['sep']!r})"
    make = lambda: PartitionHelper(df.lazy() if c["lazy"] else df, by, separator=c["sep"])
    if any(len(v) > 1 for v in names.values()):  # nothing may be lost silently
        try:
            ph = make()
        except ValueError:
            return "same names"
        check_eq(sum(len(ph.get(k)) for k in ph.names()), len(df), f"{what}: rows of all parts")
        return "same names"
    ph = make()
    check_eq(ph.names(), list(names), f"{what}: names")
    for name, [rows] in names.items():
        check_frame(ph.get(name), df[rows], f"{what}: part {name!r}")
        check_frame(ph.parts[name], df[rows], f"{what}: part {name!r}")
    if len(df):
        check_frame(pl.concat(ph.parts.values()).sort("row"), df.sort("row"), f"{what}: all parts")
    check_frame(df, before, f"{what} changed its input")
    for no in ("no such part", None, 5):
        check_eq(ph.get(no), None, f"{what}: unknown part")
    k = c["vs"] % 16
    h = ph.head(k)
    check_eq(list(h), list(names), f"{what}.head: names")
    for name, [rows] in names.items():
        check_frame(h[name], df[rows[:k]], f"{what}.head({k}): part {name!r}")
    check_eq(list(ph.head().values())[0].height if names else 0, min(5, len(list(names.values())[0][0])) if names else 0, f"{what}.head()")
    r = repr(ph)
    if not all(name in r for name in names):
        fail(f"{what}: a part is missing in its representation")
    return f"{len(c['kinds'])} columns" + (" with nulls" if c["nulls"] else "")


def check_frame(a, b, what):
    if a is None or a.columns != b.columns or a.schema != b.schema or a.rows() != b.rows():
        fail(what, got=None if a is None else a.rows()[:5], want=b.rows()[:5], types=None if a is None else a.schema)


@law(st.tuples(frame_st, st.sampled_from(["rows", "frame", "none", "key"]), st.sampled_from([0, 0, 2, 3]), st.booleans()), n=400, rule="by function, failing parts")
def apply_visits_every_part(t):
    c, how, bad, whole = t
    df, by, parts = build(c)
    names = {}
    if whole:
        parts = {("whole",): list(range(len(df)))}
    for k, rows in parts.items():
        names.setdefault(c["sep"].join(str(x) for x in k), []).append(rows)
    if any(len(v) > 1 for v in names.values()):
        raise Skip
    ph = PartitionHelper(df, None if whole else by, c["sep"], "whole") if whole else PartitionHelper(df, by, c["sep"])
    seen = []

    def f(name, part):
        seen.append(name)
        check_frame(part, df[names[name][0]], f"part {name!r} given to the function")
        if bad and len(name + "x" * part.height) % bad == 0:
            raise ZeroDivisionError("of the function")
        return {"rows": part.height, "frame": part.select(pl.col("x").sum()), "none": None, "key": name}[how]

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = ph.apply(f)
    check_eq(seen, list(names), "calls of the function")
    good = [k for k, [rows] in names.items() if not (bad and len(k + "x" * len(rows)) % bad == 0)]
    check_eq(list(out), good, "parts with results")
    for k in good:
        d = df[names[k][0]]
        want = {"rows": d.height, "frame": d.select(pl.col("x").sum()).rows(), "none": None, "key": k}[how]
        check_eq(out[k].rows() if how == "frame" else out[k], want, f"result for the part {k!r}")
    check_eq(len(ws), len(names) - len(good), "warnings")
    for w in ws:
        if "of the function" not in str(w.message):
            fail("warning without the error", message=str(w.message))
    return ("whole " if whole else "") + how + (" failing" if len(good) < len(names) else "")


@law(st.fixed_dictionaries(dict(n=st.integers(0, 9), vs=seeds, bad=st.sampled_from(["i", "f", "d", "l", "e", "nothere", ""]), pos=st.integers(0, 2), single=st.booleans(), lazy=st.booleans(), name=st.sampled_from(["df", "all rows", ""]))), n=200, rule="by type")
def whole_frame_and_refusals(c):
    n = c["n"]
    g = np.random.default_rng(c["vs"])
    df = pl.DataFrame(dict(s=pl.Series([["a", "b"][k] for k in g.integers(0, 2, n)], dtype=pl.String), b=pl.Series(g.random(n) < 0.5, dtype=pl.Boolean), i=pl.Series(g.integers(0, 3, n), dtype=pl.Int64), f=pl.Series(g.normal(size=n)),
                      d=pl.Series([None] * n, dtype=pl.Date), l=pl.Series([["a"]] * n, dtype=pl.List(pl.String)), e=pl.Series([["p", "q"][k] for k in g.integers(0, 2, n)], dtype=pl.Enum(["p", "q"]))))
    src = df.lazy() if c["lazy"] else df
    if c["bad"] == "":
        ph = PartitionHelper(src, None, whole_df_name=c["name"])
        check_eq(ph.names(), [c["name"]], "name of the whole frame")
        check_frame(ph.get(c["name"]), df, "whole frame")
        check_eq(PartitionHelper(src, None).names(), ["df"], "default name of the whole frame")
        return "whole"
    by = ["s", "b"]
    by.insert(c["pos"], c["bad"])
    if c["single"]:
        by = c["bad"]
    try:
        PartitionHelper(src, by)
    except (ValueError, TypeError, pl.exceptions.PolarsError):
        return c["bad"]
    fail("a partition by a column of another type", by=by)
