"""The published English (Porter2) stemmer, written from its description."""
import re

V = "aeiouy"
DBL = ("bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt")
EXC1 = dict(skis="ski", skies="sky", dying="die", lying="lie", tying="tie", idly="idl", gently="gentl", ugly="ugli",
            early="earli", only="onli", singly="singl", sky="sky", news="news", howe="howe", atlas="atlas", cosmos="cosmos",
            bias="bias", andes="andes")
EXC2 = {"inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed"}
S2 = [("ational", "ate"), ("fulness", "ful"), ("iveness", "ive"), ("ization", "ize"), ("ousness", "ous"), ("biliti", "ble"),
      ("lessli", "less"), ("tional", "tion"), ("alism", "al"), ("aliti", "al"), ("ation", "ate"), ("entli", "ent"),
      ("fulli", "ful"), ("iviti", "ive"), ("ousli", "ous"), ("abli", "able"), ("alli", "al"), ("anci", "ance"), ("ator", "ate"),
      ("enci", "ence"), ("izer", "ize"), ("bli", "ble"), ("ogi", None), ("li", None)]
S3 = [("ational", "ate"), ("tional", "tion"), ("alize", "al"), ("icate", "ic"), ("iciti", "ic"), ("ative", None), ("ical", "ic"),
      ("ness", ""), ("ful", "")]
S4 = ["ement", "ance", "ence", "able", "ible", "ment", "ant", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion", "al", "er", "ic"]


def short_end(w):
    if len(w) == 2:
        return w[0] in V and w[1] not in V
    return len(w) > 2 and w[-1] not in V + "wxY" and w[-2] in V and w[-3] not in V


def stem(w):
    if len(w) < 3 or w in EXC1:
        return EXC1.get(w, w)
    if w[0] == "'":
        w = w[1:]
    if w[:1] == "y":
        w = "Y" + w[1:]
    w = list(w)
    for i in range(1, len(w)):
        if w[i] == "y" and w[i - 1] in V:
            w[i] = "Y"
    w = "".join(w)

    def region(s):
        m = re.search(f"[{V}][^{V}]", s)
        return m.end() if m else len(s)

    for p in ("gener", "commun", "arsen"):
        if w.startswith(p):
            p1 = len(p)
            break
    else:
        p1 = region(w)
    p2 = p1 + region(w[p1:])

    def r1(suf):
        return len(w) - len(suf) >= p1

    def r2(suf):
        return len(w) - len(suf) >= p2

    for s in ("'s'", "'s", "'"):
        if w.endswith(s):
            w = w[: -len(s)]
            break
    if w.endswith("sses"):
        w = w[:-2]
    elif w.endswith(("ied", "ies")):
        w = w[:-2] if len(w) > 4 else w[:-1]
    elif w.endswith(("us", "ss")):
        pass
    elif w.endswith("s"):
        if any(c in V for c in w[:-2]):
            w = w[:-1]
    if w in EXC2:
        return w.replace("Y", "y")
    for s in ("eedly", "ingly", "edly", "eed", "ing", "ed"):
        if w.endswith(s):
            if s in ("eed", "eedly"):
                if r1(s):
                    w = w[: -len(s)] + "ee"
            elif any(c in V for c in w[: -len(s)]):
                w = w[: -len(s)]
                if w.endswith(("at", "bl", "iz")):
                    w += "e"
                elif w.endswith(DBL):
                    w = w[:-1]
                elif p1 == len(w) and short_end(w):
                    w += "e"
            break
    if len(w) > 2 and w[-1] in "yY" and w[-2] not in V:
        w = w[:-1] + "i"
    for s, t in S2:
        if w.endswith(s):
            if r1(s):
                if s == "ogi":
                    if w[:-3].endswith("l"):
                        w = w[:-1]
                elif s == "li":
                    if w[:-2] and w[-3] in "cdeghkmnrt":
                        w = w[:-2]
                else:
                    w = w[: -len(s)] + t
            break
    for s, t in S3:
        if w.endswith(s):
            if r1(s):
                if s == "ative":
                    if r2(s):
                        w = w[:-5]
                else:
                    w = w[: -len(s)] + t
            break
    for s in S4:
        if w.endswith(s):
            if r2(s):
                if s != "ion" or w[:-3].endswith(("s", "t")):
                    w = w[: -len(s)]
            break
    if w.endswith("e"):
        if r2("e") or (r1("e") and not short_end(w[:-1])):
            w = w[:-1]
    elif w.endswith("l"):
        if r2("l") and w[:-1].endswith("l"):
            w = w[:-1]
    return w.replace("Y", "y")
