#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE] [--law NAME ...] [--scale X]

Builds the extension from /repo's working tree, runs the property's laws over generated cases, writes
evidence/<PROPERTY>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2/3: no answer."""
import json, os, pathlib, queue, shutil, signal, subprocess, sys, threading, time

V = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(V / "lib"))
sys.dont_write_bytecode = True
import build

NW = int(os.environ.get("VERIF_WORKERS", "8"))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}

# quick cases per property relative to the laws' base counts (each check then takes 20-60 s on 8 idle cores)
MULT = {"P01": 2, "P02": 2, "P03": 3, "P04": 3, "P05": 5, "P06": 3, "P07": 10, "P08": 3, "P09": 8, "P10": 8, "P11": 5, "P12": 10, "P13": 3, "P14": 3,
        "P15": 3, "P16": 6, "P17": 8, "P18": 6, "P19": 8, "P20": 8, "P21": 4, "P22": 3, "P23": 4, "P24": 4, "P25": 10, "P26": 2, "P27": 1.5, "P28": 1, "P29": 2, "P30": 3}


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    only, rep, scale = [], None, 1.0
    while args:
        a = args.pop(0)
        if a == "--replay":
            rep = args.pop(0)
        elif a == "--law":
            only.append(args.pop(0))
        elif a == "--scale":
            scale = float(args.pop(0))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    name = f"{pid}-{os.getpid()}"
    st, deps = build.prepare(name)
    env = dict(os.environ, PYTHONPATH=f"{st}:{deps}:{V}:{V}/lib", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               POLARS_MAX_THREADS="4", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               RAYON_NUM_THREADS="4", PYTHONUTF8="1", RUST_BACKTRACE="0", HYPOTHESIS_STORAGE_DIRECTORY=str(st / "hyp"))
    for k in ("LD_LIBRARY_PATH", "VIRTUAL_ENV"):
        env.pop(k, None)
    try:
        return go(pid, only, rep, scale, tier, seed, t0, st, env)
    finally:
        shutil.rmtree(st, ignore_errors=True)


def go(pid, only, rep, scale, tier, seed, t0, st, env):
    H = [build.PY, str(V / "lib/harness.py")]
    if rep:
        return subprocess.run(H + ["replay", pid, rep], env=env).returncode
    r = subprocess.run(H + ["laws", pid], env=env, stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return 3
    laws = json.loads(r.stdout.splitlines()[-1])
    if only:
        laws = [l for l in laws if l["name"] in only]
    tasks = queue.Queue()
    todo = []
    scale *= MULT.get(pid, 1) * (0.7 if tier == "thorough" else 1)
    for l in laws:
        n = max(1, int((l["thorough"] if tier == "thorough" else l["n"]) * scale))
        shards = max(1, min(NW, n // 40)) if tier == "quick" else max(1, min(4 * NW, n // 100))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            todo.append({"law": l["name"], "shard": s, "n": k})
    # round-robin over laws so that heavy laws spread
    todo.sort(key=lambda t: t["shard"])
    for t in todo:
        tasks.put(t)
    results, crashes, errors = [], [], []
    limit = 780 if tier == "quick" else 6 * 3600

    def run_worker(i):
        p = None
        jp = st / f"journal{i}"
        while True:
            try:
                t = tasks.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p = subprocess.Popen(H + ["worker", pid, str(seed), str(jp)], env=env, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=open(st / f"err{i}", "ab"), text=True)
                procs.add(p)
                l = p.stdout.readline()
                if not l:
                    errors.append(f"worker failed to start: {open(st / f'err{i}').read()[-2000:]}")
                    return
            p.stdin.write(json.dumps(t) + "\n")
            p.stdin.flush()
            l = p.stdout.readline()
            if not l:
                rc = p.wait()
                tail = open(st / f"err{i}").read()[-1500:]
                if rc < 0 and -rc in CRASH:
                    try:
                        case = json.load(open(jp))
                    except Exception:
                        case = None
                    crashes.append((t, case, f"process died with signal {-rc}\n{tail}"))
                else:
                    errors.append(f"worker exit {rc} in {t}: {tail}")
                p = None
                continue
            results.append(json.loads(l))
        if p:
            p.stdin.close()
            p.wait()

    procs = set()
    th = [threading.Thread(target=run_worker, args=(i,), daemon=True) for i in range(min(NW, len(todo)))]
    [t.start() for t in th]
    hung = False
    for t in th:
        t.join(max(1, limit - (time.time() - t0)))
        if t.is_alive():
            hung = True
    if hung:
        for p in procs:
            p.kill()
        errors.append("time limit reached before the fixed work was done (no answer)")

    # ---------------------------------------------------------------------------------------------------- verdicts
    rules = {l["name"]: l["rule"] for l in laws}
    per, hashes, samples = {}, set(), []
    viol = {}
    for r in sorted(results, key=lambda r: (r["law"], r["shard"])):
        p = per.setdefault(r["law"], {"evaluations": 0, "nontrivial_labels": {}, "secs": 0})
        p["evaluations"] += r["ev"]
        p["secs"] = round(p["secs"] + r["secs"], 2)
        for k, v in r["labels"].items():
            p["nontrivial_labels"][k] = p["nontrivial_labels"].get(k, 0) + v
        before = len(hashes)
        hashes.update(r["law"] + h for h in r["hashes"])
        p["distinct_nontrivial"] = p.get("distinct_nontrivial", 0) + len(hashes) - before
        if r["shard"] == 0 and r["samples"]:
            samples.append({"law": r["law"], "case": r["samples"][-1]})
        if r.get("err"):
            errors.append(f"{r['law']}: {r['err']}")
        if r.get("fail"):
            c = r["fail"]
            old = viol.get(r["law"])
            if old is None or len(json.dumps(c["case"])) < len(json.dumps(old["case"])):
                viol[r["law"]] = c
    for t, case, why in crashes:
        viol.setdefault(t["law"], {"case": case, "tb": why})
    rd = V / "replays"
    rd.mkdir(exist_ok=True)
    for ln, c in sorted(viol.items()):
        f = rd / f"{pid}-{ln}.json"
        f.write_text(json.dumps({"property": pid, "law": ln, "seed": seed, "case": c["case"], "traceback": c["tb"]}, indent=1))
        print(f"--- {ln}: {c['tb'][-1800:]}\ncase: {json.dumps(c['case'])[:1200]}")
        print(f"VIOLATION property={pid} replay={f}")
    nk = 0
    kn = json.load(open(V / "known_findings.json"))["findings"] if (V / "known_findings.json").exists() else []
    if any(k["property"] == pid for k in kn):
        r = subprocess.run(H + ["known", pid], env=env, stdout=subprocess.PIPE, text=True)
        res = [l for l in r.stdout.splitlines() if l.startswith("@@")]
        for tag, state, msg in json.loads(res[0][2:]) if res else []:
            k = next(k for k in kn if k["tag"] == tag and k["property"] == pid)
            if state == "known":
                nk += 1
                print(f"KNOWN-FINDING: property={pid} {tag}: {k['what']}")
            elif state == "other":
                print(f"known finding {tag} now fails differently: {msg}")
                f = rd / f"{pid}-known-{tag}.json"
                f.write_text(json.dumps({"property": pid, "law": k["law"], "seed": seed, "case": k["case"], "traceback": msg}))
                print(f"VIOLATION property={pid} replay={f}")
                viol["known-" + tag] = {}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per.values()),
            "distinct_nontrivial": len(hashes),
            "rule": "Cases are made by Hypothesis strategies (one per law, fixed counts, seeded from VERIF_SEED) and run "
                    "against the freshly built extension; a case counts when the law labels it non-trivial: "
                    + "; ".join(f"[{n}] {rules[n]}" for n in per),
            "samples": samples[:40],
            "laws": per, "known_findings_reproduced": nk,
        },
        "assumptions": ["reference models in /verif/checks and numpy/scipy/scikit-learn/statsmodels are correct",
                        "floating-point agreement is judged with the tolerances stated in the laws"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    if os.environ.get("VERIF_VERBOSE"):
        for n, p in sorted(per.items()):
            print(f"  {n}: {p}")
    print(f"{pid}: {ev['coverage']['evaluations']} cases, {len(hashes)} distinct non-trivial, {len(per)} laws, "
          f"{len(viol)} violations, {ev['wall_s']} s")
    for e in errors:
        print("ERROR", e, file=sys.stderr)
    if viol:
        return 1
    return 2 if errors else 0


sys.exit(main())
