"""Pipelines written to JSON and read back: the same computation, features and checks."""
import os, re, shutil, subprocess, sys, tempfile
from polars_ds.modeling.pipeline import Pipeline, PipelineStep, PLContext
from checks import catalog as K
from checks.pipemodel import *

ATTRS = ["name", "target", "feature_names_in_", "feature_names_out_", "ensure_features_in", "ensure_features_out", "lowercase", "uppercase"]
WAYS = ["str", "file", "dict", "pretty"]


def reload(p, way):
    if way == "dict":
        return Pipeline.from_dict(p.to_dict())
    if way in ("str", "pretty"):
        s = p.to_json() if way == "str" else p.to_json(indent=2, sort_keys=True)
        check_eq(type(s), str, "to_json()")
        return Pipeline.from_json_str(s)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "p.json")
        if p.to_json(f) is not None:
            fail("to_json(path) returns something")
        if os.listdir(d) != ["p.json"]:
            fail("to_json(path) does not write exactly that file", got=os.listdir(d))
        return Pipeline.from_json(f)
    finally:
        shutil.rmtree(d)


def alike(p, q, frames, what):
    for a in ATTRS:
        check_eq(getattr(q, a), getattr(p, a), f"{what}: {a}")
    check_eq([s.context for s in q.transforms], [s.context for s in p.transforms], f"{what}: the steps")
    check_eq([len(s.exprs) for s in q.transforms], [len(s.exprs) for s in p.transforms], f"{what}: the expressions of the steps")
    for f in frames:
        x, y = p.transform(f), q.transform(f)
        if not same(y, x):
            fail(f"{what}: another output", got=y, want=x)
        if not same(q.transform(f.lazy(), return_lazy=True).collect(), x):
            fail(f"{what}: another output for a lazy frame")


NUMBER = re.compile(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def same_document(a, b):
    """Equal, but for the last digits of constants (the JSON reader of Polars rounds them)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_document(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_document(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a.startswith("{"):
        u, v = NUMBER.findall(a), NUMBER.findall(b)
        return NUMBER.sub("#", a) == NUMBER.sub("#", b) and all(x == y or close(float(x), float(y), 1e-12, 1e-300) for x, y in zip(u, v))
    return a == b


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 6), ways=st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))), n=1200, rule="by number of steps in effect")
def reloaded_pipelines(c):
    b = build(c)
    if not b.steps:
        raise Skip
    p = blueprint(c, b, b.train_df).materialize()
    what = " > ".join(f"{s.name}{s.args}{s.kwargs}" for s in b.steps)[:1500]
    frames = [b.train_df, b.new_df]
    want = [p.transform(f) for f in frames]
    doc, q = p.to_dict(), p
    for w in c["ways"]:
        q = reload(q, w)
        alike(p, q, frames, f"{c['ways']} of {what}")
    compare(q.transform(b.new_df), b.m_new, "reloaded: new frame through " + what, b.tol)
    if not all(same(p.transform(f), o) for f, o in zip(frames, want)):
        fail("saving changes the pipeline itself")
    if not same_document(q.to_dict(), doc):
        fail(f"the document of the reloaded pipeline ({what})", got=q.to_dict(), want=doc)
    return str(len(b.steps))


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(1, 1), ways=st.lists(st.sampled_from(WAYS), min_size=1, max_size=1))), n=900, rule="by kind of step")
def every_kind_of_step(c):
    r = reloaded_pipelines(c)
    return r and c["steps"][0][0]


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(0, 4), io=st.tuples(st.booleans(), st.booleans()), way=st.sampled_from(WAYS), miss=st.integers(0, 30))), n=300, rule="by the two checks")
def reloaded_checks(c):
    """The input and output column checks survive."""
    b = build(c)
    p = blueprint(c, b, b.train_df).materialize()
    default = reload(p, c["way"])
    check_eq((default.ensure_features_in, default.ensure_features_out), (False, True), "default checks of a reloaded pipeline")
    p.ensure_features_io(*c["io"])
    q = reload(p, c["way"])
    nw = b.new_df
    extra = nw.with_columns(pl.lit(1).alias("zzz"))
    for f in (nw, extra, nw.drop(nw.columns[c["miss"] % len(nw.columns)]), nw.select(nw.columns[::-1])):
        def run(x):
            try:
                return x.transform(f)
            except Exception as e:
                return type(e).__name__

        x, y = run(p), run(q)
        if type(x) is not type(y) or (x != y if isinstance(x, str) else not same(x, y)):
            fail("a reloaded pipeline answers another frame differently", got=y, want=x, checks=c["io"])
    if b.ctx.target in p.feature_names_out_:
        X, Y = q.transform(nw, separate=True)
        U, W = p.transform(nw, separate=True)
        if not (same(X, U) and same(Y, W)):
            fail("separate=True of a reloaded pipeline")
    return str(c["io"])


# Expressions which Polars itself cannot serialize (rechunk, reshape, an implicit cast), whatever holds them
NOT_SERIALIZABLE = set("""conv_fft conv_full conv_left conv_same conv_valid detrend f_acorr f_acorr_x f_perm f_perm3 f_similar f_similar_sq knn_avg knn_avg_w knn_dist knn_freq knn_masks knn_pt_inf knn_pt_l1 knn_pt_l2 knn_pt_sql2 list_amax lr_report_w lr_simple lr_w psi_w rad_freq rad_inf rad_l1 rad_l2 rad_sql2 s_mwu s_mwu_x sing_ratio trapz trapz_x""".split())
PLUG = [k for k in K.NAMES if k not in NOT_SERIALIZABLE]


@law(st.fixed_dictionaries(dict(n=st.integers(40, 80), vs=seeds, names=st.lists(st.sampled_from(PLUG), min_size=1, max_size=4, unique=True), way=st.sampled_from(WAYS), lazy=st.booleans(), par=st.booleans())), n=700, rule="by appended expression, or several")
def plugin_expressions(c):
    """Expressions of the package appended to a pipeline, with their keyword arguments."""
    names = c["names"]
    df = K.frame(c["n"], c["vs"])
    ex = {k: K.make(k, c["par"]).alias("o_" + k) for k in names}
    if K.C[names[0]][0] == "len":
        names, sel = names[:1], True
    else:
        names, sel = [k for k in names if K.C[k][0] != "len"], False
    es = [ex[k] for k in names]
    bp = Blueprint(df, name="x", target="y")
    bp = bp.append_expr(*es, is_select=True) if sel else bp.append_expr(*es)
    want = df.select(es) if sel else df.with_columns(es)
    q = reload(bp.materialize(), c["way"])
    got = q.transform(df.lazy() if c["lazy"] else df)
    check_eq(got.columns, want.columns, "columns")
    for k in names:
        K.agree(got["o_" + k], want["o_" + k], f"{k} in a reloaded pipeline", name=k)
    return names[0] if len(names) == 1 else "several"


CODE = """
import sys, warnings
warnings.simplefilter("ignore")
import polars as pl
from polars_ds.modeling.pipeline import Pipeline
d = sys.argv[1]
p = Pipeline.from_json(d + "/p.json")
for k in ("tr", "nw"):
    p.transform(pl.read_ipc(d + f"/{k}.ipc", memory_map=False)).write_ipc(d + f"/{k}.out.ipc")
"""


@law(st.fixed_dictionaries(dict(base_st, steps=steps_st(3, 8))), n=16, thorough=10, rule="by number of steps in effect")
def another_process(c):
    """A pipeline read from its file by a new process."""
    b = build(c)
    if not b.steps:
        raise Skip
    p = blueprint(c, b, b.train_df).materialize()
    d = tempfile.mkdtemp()
    try:
        p.to_json(d + "/p.json")
        b.train_df.write_ipc(d + "/tr.ipc")
        b.new_df.write_ipc(d + "/nw.ipc")
        r = subprocess.run([sys.executable, "-c", CODE, d], capture_output=True, text=True, env=dict(os.environ, POLARS_MAX_THREADS="2", PYTHONPATH=os.pathsep.join(x for x in sys.path if x)))
        if r.returncode:
            fail("a new process cannot load and run the pipeline", err=r.stderr[-1500:])
        for k, f in (("tr", b.train_df), ("nw", b.new_df)):
            if not same(pl.read_ipc(d + f"/{k}.out.ipc", memory_map=False), p.transform(f)):
                fail("a new process computes something else from the file")
    finally:
        shutil.rmtree(d)
    return str(len(b.steps))


@law(st.fixed_dictionaries(dict(key=st.sampled_from(["name", "target", "transforms", "feature_names_in_", "feature_names_out_", "ensure_features_in", "ensure_features_out"]), how=st.sampled_from(["key", "context", "action"]))), n=40, rule="by damage")
def damaged_documents(c):
    """A document that lacks a part is refused, not read as another pipeline."""
    df = pl.DataFrame({"x": [1.0, 2.0, 4.0], "y": [0, 1, 0]})
    d = Blueprint(df, name="x", target="y").center(["x"]).filter("x > 0").materialize().to_dict()
    if c["how"] == "key":
        d.pop(c["key"])
    elif c["how"] == "context":
        d["transforms"][0]["context"] = "nowhere"
    else:
        d["transforms"][0]["action"] = ["{}"]
    try:
        Pipeline.from_dict(d)
    except Exception:
        return c["how"]
    fail("a damaged document is accepted", how=c)
