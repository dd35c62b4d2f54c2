"""tools/addfix.py PREFIX=P01,P02 ...: note which properties a fix commit belongs to, then rewrite known_findings.json."""
import json, sys, subprocess, os
p = os.path.join(os.path.dirname(__file__), "fixed.json")
d = json.load(open(p))
for a in sys.argv[1:]:
    k, v = a.rsplit("=", 1)
    d[k] = v.replace(",", " ")
d = {k: v if isinstance(v, str) else " ".join(v) for k, v in d.items()}
json.dump(d, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(__file__), "fixed.py")])
