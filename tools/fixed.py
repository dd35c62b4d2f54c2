"""Rewrites the 'fixed' entries of known_findings.json from FIXED (subject -> property), resolving commit hashes in /repo."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
MAP = json.loads((V / "tools/fixed.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
out = []
gone = {l.split('Revert "', 1)[1].rstrip('"') for l in log if 'Revert "fix:' in l}
for l in log:
    if l.split(" ", 1)[1] in gone:
        continue
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        k = [k for k in MAP if s.startswith(k)]
        assert len(k) == 1, (s, k)
        for p in MAP[k[0]].split():
            out.append(f"fixed: property={p} {h} before the fix this failed: {s}")
f = V / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"] = out
f.write_text(json.dumps(d, indent=1) + "\n")
print(len(out))
