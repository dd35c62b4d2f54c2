"""The type a number is stored in does not change the answer: narrow integers and single precision against double precision."""
import polars_ds.exprs.metrics as PM
import polars_ds.exprs.stats as PS
import polars_ds.exprs.ts_features as PF
from checks import catalog as K
from checks.common import *

DT = dict(i8=pl.Int8, i16=pl.Int16, i32=pl.Int32, i64=pl.Int64, u8=pl.UInt8, u16=pl.UInt16, u32=pl.UInt32, u64=pl.UInt64, f32=pl.Float32)
p, q, r, y, w, i, j, z, cls, u = (pl.col(k) for k in ("p", "q", "r", "y", "w", "i", "j", "z", "cls", "u"))

E = {}
# the catalogue, without what has no number in it, is random, or overflows in the caller's own arithmetic or in single precision by definition
SKIP = {n for n in K.NAMES if n.endswith(("_x", "_f32")) or n.startswith("x_") or n.startswith(("f_streak", "s_xi", "lr_lasso"))}
SKIP |= {"gamma", "exp2", "expit", "digamma", "sinc", "next_up", "next_down", "fract", "trunc", "exp2_int", "gamma_int", "next_up_int", "lcm_i32", "gcd12", "lcm", "gcd", "haversine", "haversine_pt", "softmax", "combinations", "product", "logit", "m_adj_r2"}


def numeric(e):
    return set(e.meta.root_names()) & {"p", "q", "r", "y", "w", "i", "j", "z", "cls"}


for n in K.NAMES:
    if n not in SKIP and numeric(K.make(n)):
        E[n] = lambda n=n: K.make(n)


def more(name, f):
    assert name not in E, name
    E[name] = f


for nm in ("r2", "l1", "l2", "l_inf", "log_cosh", "mape", "smape", "msle"):
    more("mm_" + nm, lambda f=getattr(PM, "query_" + nm): f(y, w))
    if nm in ("l1", "l2", "log_cosh", "msle"):
        more(f"mm_{nm}_sum", lambda f=getattr(PM, "query_" + nm): f(y, w, normalize=False))
more("mm_adj_r2", lambda: PM.query_adj_r2(y, w, 2))
more("mm_mape_w", lambda: PM.query_mape(y, w, weighted=True))
more("mm_mase1", lambda: PM.query_mase(y, p, q))
more("mm_mad_median", lambda: PM.query_mad(y, use_mean=False))
more("mm_hubor", lambda: PM.query_hubor_loss(y, p, 50.0))
for a in ("less", "greater"):
    more("ts_t_" + a, lambda a=a: pds.ttest_ind(p, q, alternative=a, equal_var=False))
more("ts_acorr_raw", lambda: pds.query_auto_corr(p, 2, normalize=False))
more("ts_acorr1", lambda: pds.query_auto_corr(p, 1, ddof=1))
more("ts_cid", lambda: pds.query_cid_ce(p))
more("ts_trev2", lambda: pds.query_time_reversal_asymmetry_stats(p, 2))
more("ts_c3", lambda: pds.query_c3_stats(p, 1))
more("ts_ar3", lambda: pds.query_ar_coeffs(p, lag=3, add_bias=False))
more("ts_approx_raw", lambda: pds.query_approx_entropy(p, m=2, filtering_level=3.0, scale_by_std=False))
more("ts_range", lambda: pds.query_range_count(p, 2, 9))
more("ts_similar", lambda: pds.query_similar_count([1.0, 4.0, 2.0], p, 7.5))
more("ts_first", lambda: pds.query_first_digit_cnt(p))
more("ts_benford", lambda: PF.query_benford(w))
more("ts_nmax5", lambda: pds.query_mean_n_abs_max(p, 5))
more("h_l1_raw", lambda: pds.l1_horizontal(p, q, r))
more("h_l2_norm", lambda: pds.l2_sq_horizontal(p, q, r, normalize=True))
more("h_inf_norm", lambda: pds.l_inf_horizontal(p, q, r, normalize=True))
more("n_winsorize", lambda: PS.winsorize(p, 0.25, 0.75))
more("n_detrend_mean", lambda: pds.detrend(p, method="mean"))
more("n_conv", lambda: pds.convolve(p, kernel=[1.0, 0.5], mode="full"))
more("n_trapz", lambda: pds.integrate_trapz(p, 0.5))
more("n_trapz_x", lambda: pds.integrate_trapz(y, pl.col("id").cast(pl.Float64)))
more("n_rfft", lambda: pds.rfft(p, n=64))
more("n_iso", lambda: pds.isotonic_regression(p))
more("n_iso_w", lambda: pds.isotonic_regression(p, weights=w))
more("n_psi_b", lambda: pds.psi_w_breakpoints(p, q, [1.5, 6.5]))
more("n_woe", lambda: pds.woe(p, z, n_bins=3))
more("s_wvar_f", lambda: pds.weighted_var(p, w, freq_weights=True))
more("s_wcov_c", lambda: pds.weighted_cov(p, q, 2.0))
more("s_wgmean2", lambda: pds.weighted_gmean(w, w + u))
more("s_wgmean3", lambda: pds.weighted_gmean(w, w))
more("s_whmean3", lambda: pds.weighted_hmean(w, w))
more("s_xlogy", lambda: pds.xlogy(w, w))
more("s_ftest3", lambda: pds.f_test(p, q, r, group="cls"))
more("s_bicor2", lambda: pds.bicor(p, q, c=5.0))
more("lr_simple_b", lambda: pds.simple_lin_reg(p, target=y, add_bias=True, return_pred=True))
more("lr_simple_w", lambda: pds.simple_lin_reg(p, target=y, add_bias=True, weights=w))
more("lr_simple_wp", lambda: pds.simple_lin_reg(p, target=y, weights=w, return_pred=True))
more("lr_pred_b", lambda: pds.lin_reg(p, q, target=y, add_bias=True, return_pred=True))
more("lr_pred_w", lambda: pds.lin_reg(p, q, target=y, weights=w, return_pred=True))
more("lr_multi_b", lambda: pds.lin_reg(p, q, target=[y, r], add_bias=True, return_pred=True))
more("lr_rep_b", lambda: pds.lin_reg_report(p, q, target=y, weights=w, add_bias=True))
for d in ("l1", "l2", "sql2", "inf"):
    more("k_within_" + d, lambda d=d: pds.within_dist_from(p, q, pt=[3, 4], r=6.5, dist=d))
    more("k_is_" + d, lambda d=d: pds.is_knn_from(p, q, pt=[3, 4], k=4, dist=d))
    more("k_freq_" + d, lambda d=d: pds.query_knn_freq_cnt(p, q, index="id", k=3, dist=d))

ORDERLESS = K.UNORDERED | {"n_woe"}
TIES = ("knn_", "is_knn", "k_is", "k_freq", "rad_")  # which of several equally near points is taken is nobody's promise


def plain(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def biggest(v):
    if isinstance(v, float):
        return abs(v) if math.isfinite(v) else 0.0
    if isinstance(v, list):
        return max(map(biggest, v), default=0.0)
    if isinstance(v, dict):
        return max(map(biggest, v.values()), default=0.0)
    return 0.0


def data(c):
    g = rng(c["vs"])
    n = c["n"]
    d = c["dt"]
    if d == "f32" or c["size"] == "small":
        lo, hi = (0, 13) if d[0] == "u" else (-12, 13)
    else:
        b = min(int(d[1:]), 40)
        lo, hi = (0, 2**b) if d[0] == "u" else (-(2 ** (b - 1)), 2 ** (b - 1))
        if c["size"] == "half":
            lo, hi = lo // 16, hi // 16
    df = K.frame(n, c["vs"])
    v = lambda a=lo, b=hi: [int(x) for x in g.integers(a, b, n)]
    cols = {k: v() for k in "pqry"}
    if c["ends"]:
        for k in cols:
            a, b = g.choice(n, 2, replace=False)
            cols[k][a], cols[k][b] = lo, hi - 1
    cols["w"] = v(1, hi)
    # a target that the features explain in part
    wide = df.with_columns(*(pl.Series(k, x, dtype=pl.Float64) for k, x in cols.items()))
    t = DT[d]
    narrow = df.with_columns(*(pl.Series(k, x, dtype=pl.Int64).cast(t) for k, x in cols.items()), *(pl.col(k).cast(t) for k in ("z", "i", "j", "cls")))
    return wide, narrow


@law(st.fixed_dictionaries(dict(name=st.sampled_from(sorted(E)), dt=st.sampled_from(sorted(DT)), size=st.sampled_from(["small", "half", "full", "full"]), n=st.integers(35, 60), ends=st.booleans(), vs=seeds)), n=3000, rule="by expression and type")
def storage_types(c):
    """Every expression over integers and single precision gives what it gives for the same numbers in double precision, or refuses them."""
    n = c["name"]
    wide, narrow = data(c)
    what = f"{n} of {c['dt']}"
    try:
        want = wide.select(E[n]().alias("o"))["o"]
    except Exception:
        raise Skip
    try:
        got = narrow.select(E[n]().alias("o"))["o"]
    except Exception as e:
        if n in REFUSED and (REFUSED[n] is None or c["dt"] in REFUSED[n]):
            return None
        fail(f"{what} is refused: {type(e).__name__}: {str(e)[:200]}")
    a, b = plain(K.vals(want)), plain(K.vals(got))
    if n in ORDERLESS:
        a, b = (sorted(v, key=lambda d: str([x for x in d.values() if not isinstance(x, float)])) for v in (a, b))
    if n in ("pca", "pcs"):
        a, b = K.unsigned(a), K.unsigned(b)
    rel = 2e-3 if c["dt"] == "f32" else 1e-7
    if not K.eqv(b, a, rel, rel * (1e-3 + biggest(a)) if n not in LOOSE else rel * 100 * (1 + biggest(a))):
        k = next((k for k, (x, x2) in enumerate(zip(a, b)) if not K.eqv(x2, x, rel, rel * (1e-3 + biggest(a)))), None)
        fail(f"{what}: got {b[k] if k is not None else len(b)!r}, want {a[k] if k is not None else len(a)!r}", size=c["size"])
    return f"{n} {c['dt']}"


LOOSE = set()
# refused with an error, not answered wrongly
REFUSED = {n: None for n in ("nb_each", "s_ks", "s_ks_bin", "s_t1", "s_t2", "s_t2e", "s_tstats")} | {n: {"f32"} for n in ("ts_t_less", "ts_t_greater")}

ZS = [n for n in sorted(E) if "z" in E[n]().meta.root_names()]
ORDERLESS |= {n for n in ZS if n in ("iv_rows", "iv_d_rows", "woe", "woe_d", "s_chi2_full")}


@law(st.fixed_dictionaries(dict(name=st.sampled_from(ZS), dt=st.sampled_from(["i8", "u8", "u32", "i64", "u64", "f32", "bool"]), n=st.integers(35, 60), vs=seeds)), n=300, rule="by expression and type")
def binary_targets(c):
    """A target of 0 and 1 may be stored as any number or as a boolean."""
    n = c["name"]
    df = K.frame(c["n"], c["vs"])
    t = DT.get(c["dt"], pl.Boolean)
    a = df.with_columns(pl.col("z").cast(pl.Float64))
    b = df.with_columns(pl.col("z").cast(t))
    num = lambda v: float(v) if isinstance(v, bool) else [num(x) for x in v] if isinstance(v, list) else {k: num(x) for k, x in v.items()} if isinstance(v, dict) else v
    f = lambda d: num(plain(K.vals(d.select(E[n]().alias("o"))["o"])))
    try:
        want = f(a)
    except Exception:
        raise Skip
    got = f(b)
    if n in ORDERLESS:
        want, got = (sorted(v, key=lambda d: [repr(x) if not isinstance(x, float) else round(x, 4) for x in d.values()] if isinstance(d, dict) else repr(d)) for v in (want, got))
    tol = 1e-5 if c["dt"] == "f32" else 1e-9
    if not K.eqv(got, want, tol, tol):
        fail(f"{n} with a target of type {c['dt']}: got {got!r:.300}, want {want!r:.300}")
    return f"{n} {c['dt']}"
