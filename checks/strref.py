"""Textbook string distances and generators of string columns."""
from checks.common import *

ALPH = ["ab", "abc", "aab", "abcdefgh", "aé", "日本語a", "😀aß", "aA bB", "é\u0301e", "01a"]


def lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


def osa(a, b):
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        d[i][0] = i
    for j in range(len(b) + 1):
        d[0][j] = j
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            c = a[i - 1] != b[j - 1]
            v = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + c)
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                v = min(v, d[i - 2][j - 2] + 1)
            d[i][j] = v
    return d[-1][-1]


def dlev(a, b):
    """Unrestricted Damerau-Levenshtein."""
    inf = len(a) + len(b)
    d = {}
    d[-1, -1] = inf
    for i in range(len(a) + 1):
        d[i, -1] = inf
        d[i, 0] = i
    for j in range(len(b) + 1):
        d[-1, j] = inf
        d[0, j] = j
    last = {}
    for i in range(1, len(a) + 1):
        db = 0
        for j in range(1, len(b) + 1):
            k = last.get(b[j - 1], 0)
            l = db
            if a[i - 1] == b[j - 1]:
                c = 0
                db = j
            else:
                c = 1
            d[i, j] = min(d[i - 1, j - 1] + c, d[i, j - 1] + 1, d[i - 1, j] + 1,
                          d[k - 1, l - 1] + (i - k - 1) + 1 + (j - l - 1))
        last[a[i - 1]] = i
    return d[len(a), len(b)]


def lcs(a, b):
    p = [0] * (len(b) + 1)
    for x in a:
        q = [0]
        for j, y in enumerate(b, 1):
            q.append(p[j - 1] + 1 if x == y else max(p[j], q[-1]))
        p = q
    return p[-1]


def lcs_dist(a, b):
    return max(len(a), len(b)) - lcs(a, b)


def hamming(a, b):
    return None if len(a) != len(b) else sum(x != y for x, y in zip(a, b))


def hamming_pad(a, b):
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))


def norm(dist):
    def f(a, b):
        m = max(len(a), len(b))
        return 1.0 if m == 0 else 1 - dist(a, b) / m

    return f


def indel_sim(a, b):
    n = len(a) + len(b)
    return 1.0 if n == 0 else 2 * lcs(a, b) / n


def jaro(a, b):
    if not a and not b:
        return 1.0
    if not a or not b:
        return 0.0
    w = max(0, max(len(a), len(b)) // 2 - 1)
    ua, ub = [False] * len(a), [False] * len(b)
    for i, x in enumerate(a):
        for j in range(max(0, i - w), min(len(b), i + w + 1)):
            if not ub[j] and b[j] == x:
                ua[i] = ub[j] = True
                break
    m = sum(ua)
    if m == 0:
        return 0.0
    sa = [x for x, u in zip(a, ua) if u]
    sb = [x for x, u in zip(b, ub) if u]
    t = sum(x != y for x, y in zip(sa, sb)) // 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def jw(weight=0.1):
    def f(a, b):
        s = jaro(a, b)
        if s > 0.7:
            p = 0
            for x, y in list(zip(a, b))[:4]:
                if x != y:
                    break
                p += 1
            s += p * weight * (1 - s)
        return s

    return f


def word(g, al, lo, hi):
    return "".join(al[i] for i in g.integers(0, len(al), int(g.integers(lo, hi + 1))))


def mutate(g, s, al):
    s = list(s)
    for _ in range(int(g.integers(0, 5))):
        k = int(g.integers(0, 4))
        i = int(g.integers(0, len(s) + 1))
        if k == 0:
            s.insert(i, al[int(g.integers(0, len(al)))])
        elif k == 1 and i < len(s):
            del s[i]
        elif k == 2 and i < len(s):
            s[i] = al[int(g.integers(0, len(al)))]
        elif k == 3 and i + 1 < len(s):
            s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)


def bulk(t):
    seed, n, ai, size, nulls = t
    g = rng(seed)
    al = ALPH[ai]
    lo, hi = [(0, 6), (0, 14), (60, 70), (100, 140), (3, 9)][size]
    if lo >= 60:
        n = min(n, 5)
    A, B = [], []
    for _ in range(n):
        a = word(g, al, lo, hi)
        b = mutate(g, a, al) if g.random() < 0.6 else word(g, al, lo, hi)
        if g.random() < 0.1:
            b = a
        A.append(None if nulls and g.random() < 0.15 else a)
        B.append(None if nulls and g.random() < 0.15 else b)
    return [A, B]


small = st.sampled_from(ALPH).flatmap(
    lambda al: st.lists(st.tuples(st.none() | st.text(al, max_size=6), st.none() | st.text(al, max_size=6)), min_size=1, max_size=5)
).map(lambda ps: [[p[0] for p in ps], [p[1] for p in ps]])
cols_st = st.one_of(
    small,
    st.tuples(seeds, sized((1, 6), (5, 40)), st.integers(0, len(ALPH) - 1), st.sampled_from([0, 1, 1, 4, 2, 3]), st.booleans()).map(bulk),
)
str_case = st.fixed_dictionaries(dict(ab=cols_st, mode=st.sampled_from(["col", "col", "lit", "one"]), parallel=st.booleans(), cuts=cuts_st))


def frame(c):
    """-> (frame, expression for the other operand, list of pairs)"""
    A, B = c["ab"]
    df = pl.DataFrame({"a": pl.Series("a", A, dtype=pl.String), "b": pl.Series("b", B, dtype=pl.String)})
    df = chunk_df(df, c["cuts"])
    if c["mode"] == "col":
        return df, ("b" if len(A) % 2 else pl.col("b")), list(zip(A, B))
    if c["mode"] == "lit":
        return df, pl.lit(B[0], dtype=pl.String), [(a, B[0]) for a in A]
    return df, pl.col("b").first(), [(a, B[0]) for a in A]


def nt(pairs):
    """some pair of different non-empty strings with a shared letter"""
    return any(a and b and a != b and set(a) & set(b) for a, b in pairs)
