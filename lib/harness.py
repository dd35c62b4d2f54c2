"""Shared machinery: laws, worker processes, shrinking, replay files and evidence.

A *law* is an executable statement of (part of) a property: a Hypothesis strategy that makes one JSON-able case and a
function that checks the case against the built extension.  The function raises on a violation and returns a label
(or True) when the case was non-trivial by the law's stated rule, a false value otherwise.
"""
from __future__ import annotations
import hashlib, importlib, json, os, sys, time, traceback

LAWS: dict[str, "Law"] = {}
CURRENT = [None]


class Violation(AssertionError):
    """A broken law. `tag` names a known finding when the failing input carries that finding's exact signature."""

    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class Skip(Exception):
    """The generated case lies outside the stated domain (counted as trivial)."""


class Law:
    def __init__(self, name, fn, strategy, n, thorough, rule):
        self.name, self.fn, self.strategy, self.n, self.rule = name, fn, strategy, n, rule
        thorough = thorough or 10
        self.thorough = n * thorough if thorough <= 20 else thorough  # a factor, or a number of cases


def law(strategy, n=300, rule="", thorough=None, name=None):
    def deco(fn):
        nm = name or fn.__name__
        if fn.__module__ != CURRENT[0]:  # a sibling's law, imported for its helpers
            return fn
        assert nm not in LAWS, nm
        LAWS[nm] = Law(nm, fn, strategy, n, thorough, rule or (fn.__doc__ or "").strip())
        return fn

    return deco


def canon(case):
    return json.dumps(case, sort_keys=False, ensure_ascii=True)


def run_case(lw, case):
    """-> (label | None).  Raises on violation."""
    try:
        return lw.fn(case)
    except Skip:
        return None
    except (KeyboardInterrupt, SystemExit, MemoryError, GeneratorExit):
        raise
    except Exception:
        raise
    except BaseException as e:  # pyo3 PanicException
        if type(e).__name__ == "PanicException":
            raise Violation(f"panic: {e}") from None
        raise


# ----------------------------------------------------------------------------------------------------------- worker
def load(pid):
    LAWS.clear()
    CURRENT[0] = f"checks.{pid}"
    m = importlib.import_module(f"checks.{pid}")
    return m


def worker(pid, seed, journal_path):
    import numpy as np

    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 25
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    load(pid)
    known = known_tags(pid)
    jfd = os.open(journal_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        t = json.loads(line)
        lw = LAWS[t["law"]]
        st = {"ev": 0, "labels": {}, "hashes": set(), "samples": [], "fail": None, "known": {}}

        def test(case):
            txt = canon(case)
            case = json.loads(txt)
            b = txt.encode()
            os.pwrite(jfd, b, 0)
            os.ftruncate(jfd, len(b))
            counting = st["fail"] is None
            try:
                lab = run_case(lw, case)
            except Violation as e:
                if e.tag and e.tag in known:
                    st["known"][e.tag] = st["known"].get(e.tag, 0) + 1
                    lab = "known:" + e.tag
                else:
                    st["fail"] = (case, traceback.format_exc(limit=-6))
                    raise
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception:
                st["fail"] = (case, traceback.format_exc(limit=-6))
                raise
            if counting:
                st["ev"] += 1
                if lab:
                    lab = lab if isinstance(lab, str) else "nontrivial"
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                    st["hashes"].add(hashlib.blake2b(b, digest_size=8).hexdigest())
                    if len(st["samples"]) < 2 and len(txt) < 1500:
                        st["samples"].append(case)

        h = int.from_bytes(hashlib.blake2b(f"{seed}/{pid}/{lw.name}/{t['shard']}".encode(), digest_size=7).digest(), "big")
        f = hypothesis.seed(h)(
            settings(max_examples=t["n"], database=None, deadline=None, derandomize=False, print_blob=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=[Phase.generate] if os.environ.get("VERIF_NOSHRINK") else [Phase.generate, Phase.shrink])(given(lw.strategy)(test)))
        t0 = time.time()
        err = None
        try:
            f()
        except BaseException as e:
            if st["fail"] is None:
                err = "".join(traceback.format_exception(e))[-3000:]
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
        r = {"law": lw.name, "shard": t["shard"], "ev": st["ev"], "labels": st["labels"], "hashes": sorted(st["hashes"]),
             "samples": st["samples"], "known": st["known"], "secs": time.time() - t0, "err": err}
        if st["fail"]:
            r["fail"] = {"case": st["fail"][0], "tb": st["fail"][1]}
        out.write(json.dumps(r) + "\n")
        out.flush()
    return 0


def known_file():
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def known_entries(pid):
    try:
        d = json.load(open(known_file()))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == pid]


def known_tags(pid):
    return {k["tag"] for k in known_entries(pid)}


def replay(pid, path):
    d = json.load(open(path))
    load(pid)
    lw = LAWS[d["law"]]
    print("law:", lw.name)
    print("case:", canon(d["case"])[:4000])
    try:
        lab = run_case(lw, d["case"])
    except Violation as e:
        if e.tag and e.tag in known_tags(pid):
            print(f"KNOWN-FINDING: property={pid} {e.tag}")
            return 0
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("ok, label:", lab)
    return 0


def main():
    mode, pid = sys.argv[1:3]
    if mode == "worker":
        sys.exit(worker(pid, int(sys.argv[3]), sys.argv[4]))
    if mode == "replay":
        sys.exit(replay(pid, sys.argv[3]))
    if mode == "laws":
        load(pid)
        print(json.dumps([{"name": l.name, "n": l.n, "thorough": l.thorough, "rule": l.rule} for l in LAWS.values()]))
    if mode == "known":
        load(pid)
        res = []
        for k in known_entries(pid):
            try:
                run_case(LAWS[k["law"]], k["case"])
                res.append([k["tag"], "passes", ""])
            except Violation as e:
                res.append([k["tag"], "known" if e.tag == k["tag"] else "other", str(e)[:300]])
            except Exception as e:
                res.append([k["tag"], "other", repr(e)[:300]])
        print("@@" + json.dumps(res))


if __name__ == "__main__":
    import harness

    harness.main()
