"""DESIGN.md = design_body.md + design_notes.md with the lists of fixes and planted bugs filled in."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
fx = json.loads((V / "known_findings.json").read_text())["fixed"]
by = {}
for l in fx:
    _, p, c, what = l.split(" ", 3)
    by.setdefault((c, what.split(": ", 1)[1]), []).append(p.split("=")[1])
fixed = "\n".join(f"* {', '.join(ps)} ({c}): {w}" for (c, w), ps in by.items())
st = json.loads((V / "tools/bugs.json").read_text()) if (V / "tools/bugs.json").exists() else {}
rows = []
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    i = d.parent.name
    rows.append((m["property"], i, m["what_it_breaks"], st.get(i, "?")))
rows.sort()
bugs = f"{len(rows)} bugs.\n\n| property | bug | what it breaks | its check |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % (p, i, w.replace("|", "/").replace("\n", " "), s) for p, i, w, s in rows)
t = (V / "tools/design_body.md").read_text() + "\n" + (V / "tools/design_notes.md").read_text()
import re
def laws(m):
    src = (V / f"checks/{m.group(1)}.py").read_text()
    ls = re.findall(r"@law\((?:[^@]*?)\)\n(?:@[^\n]*\n)*def (\w+)\(", src, re.S)
    if m.group(1) == "P03":  # these are registered in a loop
        ls = "leven, leven_sim, d_leven, d_leven_sim, osa, osa_sim, lcs, lcs_sim, hamming, hamming_pad, fuzz, jaro, jw".split(", ") + ls
    return m.group(0).rstrip("\n") + f" Laws: {', '.join(ls)}.\n"
t = re.sub(r"^\* \*\*(P\d\d) [^\n]*\n", laws, t, flags=re.M)
(V / "DESIGN.md").write_text(t.replace("\nFIXED\n", "\n" + fixed + "\n").replace("\nBUGS\n", "\n" + bugs + "\n"))
