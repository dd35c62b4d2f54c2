"""String cleaning and case conversion do what they say for any text."""
import re, unicodedata, warnings
from checks.common import *
from checks import porter2

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200B))) + "\u2028\u2029\u202f\u205f\u3000"
COMB = "e\u0301o\u0308\u0323n\u0303\u1e69"
POOL = ["abc XYZ", "aéèüÅçñßøł", COMB, "日本語かなガ가각", "😀👩\u200d🦰", "ﬁ①ﾊ\u2126Å½ǆ", "0123.5,", WS, "a\u0000\x7f\x80", "ΑΩώС йё", "'\"-_,.;:!?"]
text = st.one_of(
    st.text(st.sampled_from(POOL).flatmap(lambda p: st.sampled_from(p)), max_size=12),
    st.text(st.characters(max_codepoint=0x2FFF, exclude_categories=("Cs", "Cn")), max_size=8),
)
col_st = st.lists(st.one_of(text, text, text, st.none()), min_size=1, max_size=8)


def series(vals, cuts):
    return chunk_df(pl.DataFrame({"s": pl.Series(vals, dtype=pl.String)}), cuts)


def apply(c, f, ref, what, cmp=None):
    vals, cuts = c
    df = series(vals, cuts)
    out = df.select(o=f("s"))["o"]
    check_eq(len(out), len(vals), "length")
    changed = False
    for v, g in zip(vals, out.to_list()):
        w = None if v is None else ref(v)
        if g != w:
            fail(f"{what}({v!r}): got {g!r}, want {w!r}")
        changed = changed or (v is not None and w != v)
    return changed


cc = st.tuples(col_st, cuts_st)
RULE = "some string is changed by the operation"


@law(cc, n=600, rule=RULE)
def non_ascii_removed(case):
    return apply(case, pds.replace_non_ascii, lambda s: "".join(c for c in s if ord(c) < 128), "replace_non_ascii")


@law(st.tuples(cc, st.sampled_from(["?", "__", "x y"])), n=400, rule=RULE)
def non_ascii_replaced(case):
    c, v = case
    return apply(c, lambda e: pds.replace_non_ascii(e, v), lambda s: "".join(c if ord(c) < 128 else v for c in s), f"replace_non_ascii {v!r}")


@law(cc, n=600, rule=RULE)
def diacritics(case):
    return apply(case, pds.remove_diacritics, lambda s: "".join(c for c in unicodedata.normalize("NFD", s) if ord(c) < 128), "remove_diacritics")


@law(st.tuples(cc, st.sampled_from(["NFC", "NFKC", "NFD", "NFKD"])), n=700, rule=RULE)
def normal_form(case):
    c, form = case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = lambda e: pds.normalize_string(e, form)
        r = apply(c, f, lambda s: unicodedata.normalize(form, s), form)
        df = series(*c)
        once = df.select(o=f("s"))
        check_eq(once.select(o=f("o"))["o"].to_list(), once["o"].to_list(), "idempotent")
    return r


def words(s):
    return [w for w in re.split(f"[{WS}]+", s) if w]


@law(cc, n=600, rule=RULE)
def whitespace(case):
    r = apply(case, pds.normalize_whitespace, lambda s: " ".join(words(s)), "normalize_whitespace")
    once = series(*case).select(o=pds.normalize_whitespace("s"))
    check_eq(once.select(o=pds.normalize_whitespace("o"))["o"].to_list(), once["o"].to_list(), "idempotent")
    return r


ws_text = st.one_of(
    st.text(st.sampled_from("ab  \t\n\u3000\xa0 "), max_size=14),
    st.lists(st.sampled_from([" ", "  ", "a", "b"]) | st.sampled_from(WS + "\u200b\ufeff\u180e"), max_size=12).map("".join),
)


@law(st.tuples(st.lists(ws_text | st.none(), min_size=1, max_size=6), cuts_st, st.booleans()), n=500, rule=RULE)
def whitespace_only_spaces(case):
    vals, cuts, only = case
    if only:
        return apply((vals, cuts), lambda e: pds.normalize_whitespace(e, only_spaces=True), lambda s: re.sub(" +", " ", s), "only_spaces")
    return apply((vals, cuts), pds.normalize_whitespace, lambda s: " ".join(words(s)), "normalize_whitespace")


wd = st.sampled_from(["a", "b", "two", "three", "One", "é", "日本", "a.b", "two,"])
sent = st.lists(st.tuples(wd, st.sampled_from([" ", "  ", "\t", "\n ", "\u3000"])), max_size=6).map(lambda l: "".join(a + b for a, b in l))


@law(st.tuples(st.lists(sent | st.none(), min_size=1, max_size=6), st.dictionaries(wd, st.sampled_from(["1", "zwei", "", "a b", "é", "two"]), max_size=4), cuts_st),
     n=500, rule="some word is replaced")
def map_words(case):
    vals, m, cuts = case
    apply((vals, cuts), lambda e: pds.map_words(e, m), lambda s: " ".join(m.get(w, w) for w in words(s)), f"map_words {m}")
    return any(w in m for v in vals if v for w in words(v))


num_text = st.lists(st.sampled_from(["12", "3", ".", ",", "0", "007", " ", "x", "-", "%", "1,234", "5.", ".5", "1.2.3", "é", "\n"]), max_size=8).map("".join)


@law(st.tuples(st.lists(num_text | st.none(), min_size=1, max_size=6), st.booleans(), st.sampled_from(["list", "-", ", ", "f64", "f32", "i64", "u32"]), cuts_st),
     n=700, rule="some string holds two or more numbers")
def numbers(case):
    vals, comma, mode, cuts = case

    def nums(s):
        s = s.replace(",", "") if comma else s
        return re.findall(r"[0-9]*\.?[0-9]+", s)

    kw = dict(ignore_comma=comma)
    if mode in ("-", ", "):
        kw["join_by"] = mode
        ref = lambda s: mode.join(nums(s))
    elif mode == "list":
        ref = nums
    elif mode in ("f64", "f32"):
        kw["dtype"] = pl.Float64 if mode == "f64" else pl.Float32
        ref = lambda s: [float(x) if mode == "f64" else float(np.float32(x)) for x in nums(s)]
    else:
        kw["dtype"] = dict(i64=pl.Int64, u32=pl.UInt32)[mode]
        vals = [None if v is None else v.replace(".", "x") for v in vals]
        if any(len(x) > 9 for v in vals if v for x in nums(v)):
            raise Skip
        ref = lambda s: [int(x) for x in nums(s)]
    apply((vals, cuts), lambda e: pds.extract_numbers(e, **kw), ref, f"extract_numbers {kw}")
    return mode if any(len(nums(v)) > 1 for v in vals if v) else None


STYLES = dict(
    spaced=lambda ws: " ".join(ws), UPPER=lambda ws: " ".join(ws).upper(), Title=lambda ws: " ".join(w.title() for w in ws),
    camel=lambda ws: ws[0] + "".join(w.title() for w in ws[1:]), Pascal=lambda ws: "".join(w.title() for w in ws),
    kebab="-".join, Train=lambda ws: "-".join(w.title() for w in ws), snake="_".join, CONST=lambda ws: "_".join(ws).upper(),
)
lw = st.text("abcdemxyz", min_size=2, max_size=5)
row = st.tuples(st.lists(lw, min_size=1, max_size=4), st.sampled_from(sorted(STYLES)))


@law(st.tuples(st.lists(st.none() | row, min_size=1, max_size=6), st.sampled_from(["camel", "snake", "pascal", "constant"]), cuts_st), n=800,
     rule="an identifier of two or more words in another style")
def cases(case):
    """The crate's documented table: every style converts to the target style, word by word."""
    rows, target, cuts = case
    f = dict(camel=pds.to_camel_case, snake=pds.to_snake_case, pascal=pds.to_pascal_case, constant=pds.to_constant_case)[target]
    ref = STYLES[dict(camel="camel", snake="snake", pascal="Pascal", constant="CONST")[target]]
    vals = [None if r is None else STYLES[r[1]](r[0]) for r in rows]
    df = series(vals, cuts)
    out = df.select(o=f("s"))["o"].to_list()
    check_eq(len(out), len(vals), "length")
    for r, v, g in zip(rows, vals, out):
        w = None if r is None else ref(r[0])
        if g != w:
            fail(f"to_{target}_case({v!r}): got {g!r}, want {w!r}")
    again = pl.DataFrame({"s": pl.Series(out, dtype=pl.String)}).select(o=f("s"))["o"].to_list()
    check_eq(again, out, "idempotent")
    return target if any(r and len(r[0]) > 1 for r in rows) else None


STOP = set("""a about above after again against ain all am an and any are aren aren't as at be because been before being below
between both but by can couldn couldn't d did didn didn't do does doesn doesn't doing don don't down during each few for from
further had hadn hadn't has hasn hasn't have haven haven't having he her here hers herself him himself his how i if in into is
isn isn't it it's its itself just ll m ma me mightn mightn't more most mustn mustn't my myself needn needn't no nor not now o of
off on once only or other our ours ourselves out over own re s same shan shan't she she's should should've shouldn shouldn't so
some such t than that that'll the their theirs them themselves then there these they this those through to too under until up ve
very was wasn wasn't we were weren weren't what when where which while who whom why will with won't wouldn wouldn't y you
you'd you'll you're you've your yours yourself yourselves""".split())
STOPL = sorted(STOP)
SUF = sorted({s for s, _ in porter2.S2} | {s for s, _ in porter2.S3} | set(porter2.S4) | {"s", "es", "ies", "ied", "sses", "us", "ss", "'s", "'s'", "'", "ed", "eed", "ing", "edly", "eedly", "ingly", "y", "e", "l", "ll", "ation", "ously", "ically", "lessly", "bly", "logy", "ly", "ity"})
STEMS = ["hop", "hopp", "run", "luxuri", "gener", "commun", "arsen", "rel", "condit", "nation", "sens", "cry", "enjoy", "say", "by", "fl", "troubl",
         "siz", "fail", "fil", "bod", "happ", "conform", "radic", "digit", "vil", "analog", "form", "triplic", "electr", "hope", "good", "reviv",
         "allow", "infer", "air", "gyroscop", "adjust", "defens", "irrit", "replac", "adopt", "homolog", "effect", "bowdler", "prob", "rat", "ceas", "contro", "ro", "yell", "syzyg", "abey", "ow", "bed", "shed", "shred", "tie", "ky"]
tok = st.one_of(
    st.tuples(st.sampled_from(STEMS), st.sampled_from(SUF)).map("".join),
    st.tuples(st.sampled_from(STEMS), st.sampled_from(SUF), st.sampled_from(SUF)).map("".join),
    st.tuples(st.text("abcdeiloprstuy", max_size=5), st.sampled_from(SUF)).map("".join),
    st.text("abcdeghilmnorstuvy'", max_size=8),
    st.sampled_from(STOPL),
    st.sampled_from(sorted(porter2.EXC1) + sorted(porter2.EXC2) + [w + "s" for w in sorted(porter2.EXC2)]),
    st.sampled_from(["12", "3.5", "-4", "1e5", "0", ".5", "日本", "12a", "a1"]),
)


def stem_ref(w, no_stop):
    try:
        float(w)
        if w.lower() not in ("nan", "inf", "infinity"):
            return ""
    except ValueError:
        pass
    if no_stop and w in STOP:
        return ""
    return porter2.stem(w)


@law(st.tuples(st.lists(tok | st.none(), min_size=1, max_size=12), st.booleans(), cuts_st), n=900, rule="some word is changed by stemming")
def stemming(case):
    vals, no_stop, cuts = case
    if any(v in ("nan", "inf", "infinity") for v in vals):
        raise Skip
    return apply((vals, cuts), lambda e: pds.str_snowball(e, no_stopwords=no_stop), lambda w: stem_ref(w, no_stop), f"str_snowball no_stopwords={no_stop}")


@law(st.tuples(st.lists(tok | st.none() | st.sampled_from(["The", "a ", "", "don'", "yourselve"]), min_size=1, max_size=12), cuts_st), n=400,
     rule="stop words and other words")
def stopword(case):
    vals, cuts = case
    out = series(vals, cuts).select(o=pds.is_stopword("s"))["o"]
    want = [None if v is None else v in STOP for v in vals]
    check_eq(out.to_list(), want, "is_stopword", vals=vals)
    return True in want and False in want


@law(st.tuples(st.just(0)), n=1, rule="the whole list")
def stopword_list(case):
    """Every listed stop word is recognised, and nothing one edit away from one that is not listed itself."""
    near = set()
    for w in STOPL:
        near |= {w + "z", "q" + w, w[:-1], w[1:], w.upper()}
    near -= STOP
    vals = STOPL + sorted(near)
    out = pl.DataFrame({"s": vals}).select(o=pds.is_stopword("s"))["o"].to_list()
    for v, g in zip(vals, out):
        check_eq(g, v in STOP, f"is_stopword({v!r})")
    return True


@law(st.tuples(st.lists(st.lists(tok, max_size=7).map(" ".join) | st.none(), min_size=1, max_size=5), st.booleans(), cuts_st), n=500,
     rule="a text with a stop word or with words of equal stem")
def tokenize(case):
    vals, stem, cuts = case
    if any(re.search(r"nan|inf", v) for v in vals if v):
        raise Skip
    tk = lambda s: re.findall(r"\b\w\w+\b", s)

    def ref(s):
        if not stem:
            return tk(s)
        seen = []
        for w in tk(s):
            r = stem_ref(w, True)
            if r != "" and r not in seen:
                seen.append(r)
        return seen

    # compared without order when stemmed: only the set of stems is documented
    out = series(vals, cuts).select(o=pds.str_tokenize("s", stem=stem))["o"].to_list()
    check_eq(len(out), len(vals), "length")
    hit = False
    for v, g in zip(vals, out):
        w = None if v is None else ref(v)
        if stem and g is not None:
            g, w = sorted(g), sorted(w)
        check_eq(g, w, f"str_tokenize({v!r}, stem={stem})")
        hit = hit or (v is not None and len(ref(v)) < len(tk(v)))
    return ("stem" if hit else None) if stem else any(v and len(tk(v)) > 1 for v in vals)
