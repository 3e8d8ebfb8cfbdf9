"""Runner: explores every case of a check in a process pool and writes the evidence.

usage: python -m mc.core CHECK_ID [--tier quick|thorough] [--replay FILE] [--jobs N]

A check is a module ``mc.checks.<id>`` with
    cases(tier)          -> list of JSON-able cases, simplest first (the bounded space)
    run_case(case, out)  -> explores one case completely on the real code
    ASSUMPTIONS, BOUNDS  -> text for the evidence
"""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOEPY_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known_findings.txt")
EVIDENCE = os.path.join(ROOT, "evidence")
TOL = 1e-9


class Uncovered(Exception):
    """Situations that must occur with certainty (or all but certainty) did not occur."""


class Out:
    """Collects what one case covered and what failed in it."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.failures = []
        self.sample = None
        self.digests = set()
        self.observed = {}

    def observe(self, name, digest):
        """An observation that must be the same wherever it is made (any case, any process)."""
        self.digests.add(digest)
        first = self.observed.setdefault(name, digest)
        if first != digest:
            self.fail(f"{name} gives different results in one process", first=first, now=digest)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def fail(self, message, key=None, **detail):
        """A violated obligation; ``key`` names a known finding it is an instance of."""
        if len(self.failures) < 50:
            self.failures.append({"key": key, "message": message, "detail": detail})

    def check(self, ok, message, key=None, **detail):
        if not bool(ok):
            self.fail(message, key=key, **detail)
        return bool(ok)

    def close(self, got, want, message, tol=TOL, names=None, key=None, mask=None):
        """Elementwise comparison, relative to 1 + |want|; reports the first mismatch."""
        import numpy as np

        got, want = np.broadcast_arrays(np.asarray(got, float), np.asarray(want, float))
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(got - want) <= tol * (1 + np.abs(want)))
            bad &= ~(np.isnan(got) & np.isnan(want))
            bad &= ~((got == want) & np.isinf(want))
        if mask is not None:
            bad = bad & mask
        if not bad.any():
            return True
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        self.fail(
            message,
            key=key,
            index=list(idx),
            axes=names,
            got=float(got[idx]),
            want=float(want[idx]),
            mismatches=int(bad.sum()),
            of=int(bad.size),
        )
        return False

    def to_dict(self):
        return {
            "states": int(self.states),
            "transitions": int(self.transitions),
            "traces": int(self.traces),
            "counts": self.counts,
            "failures": self.failures,
            "sample": self.sample,
            "digests": sorted(self.digests),
            "observed": self.observed,
        }


def _import(check):
    return importlib.import_module(f"mc.checks.{check.lower()}")


def _work(check, case):
    t0 = time.time()
    out = Out()
    error = None
    try:
        _import(check).run_case(case, out)
    except Exception as exc:  # noqa: BLE001
        frames = traceback.extract_tb(exc.__traceback__)
        text = "".join(traceback.format_exception(exc)[-12:])
        inside = any(f.filename.startswith(os.path.join(REPO, "soepy")) for f in frames)
        if inside:
            out.fail(f"the code raised {type(exc).__name__}: {str(exc)[:300]}", traceback=text)
        elif type(exc).__name__ == "Uncovered":
            out.fail(str(exc))
        elif isinstance(exc, (IndexError, KeyError, ValueError, TypeError, ArithmeticError)):
            # every case is deterministic and can be judged on well-formed results
            out.fail(f"the results cannot be interpreted: {type(exc).__name__}: {str(exc)[:300]}", traceback=text)
        else:
            error = text
    res = out.to_dict()
    res["error"] = error
    res["wall"] = time.time() - t0
    return res


def known_findings(check):
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding: "):
                    parts = line[len("finding: "):].strip().split(" ", 2)
                    fields = dict(p.split("=", 1) for p in parts[:2])
                    if fields["property"] == check:
                        found[fields["key"]] = parts[2]
    return found


def run(check, tier, replay=None, jobs=None, deadline=None):
    t0 = time.time()
    mod = _import(check)
    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = mod.cases(tier)
    known = known_findings(check)
    deadline = deadline or (480 if tier == "quick" else 3 * 3600)
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(cases)))

    agg = {"states": 0, "transitions": 0, "traces": 0}
    counts, samples, violations, seen, errors, digests = {}, [], [], {}, [], set()
    observed = {}
    done = 0
    ctx = multiprocessing.get_context("spawn")
    fresh = {"max_tasks_per_child": 1} if getattr(mod, "FRESH_PROCESSES", False) else {}
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, **fresh) as pool:
        pending, it = {}, iter(enumerate(cases))

        def feed():
            for i, case in it:
                pending[pool.submit(_work, check, case)] = (i, case)
                return True
            return False

        while len(pending) < 2 * jobs and feed():
            pass
        while pending:
            ready, _ = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for fut in ready:
                i, case = pending.pop(fut)
                res = fut.result()
                done += 1
                for k in agg:
                    agg[k] += res[k]
                for k, v in res["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                digests.update(res["digests"])
                if res["sample"] is not None and len(samples) < 3:
                    samples.append({"case": case, "observed": res["sample"]})
                if res["error"]:
                    errors.append((i, case, res["error"]))
                for name, d in res["observed"].items():
                    want = case.get("expect", {}).get(name) or observed.setdefault(name, d)
                    if want != d:
                        res["failures"].append({"key": None, "message": f"{name} gives different results in different histories",
                                                "detail": {"expected": want, "got": d}})
                        case = {**case, "expect": {**case.get("expect", {}), name: want}}
                for f in res["failures"]:
                    if f["key"] in known:
                        seen.setdefault(f["key"], []).append((i, case, f))
                    else:
                        violations.append((i, case, f))
                if (
                    time.time() - t0 < deadline
                    and not errors
                    and len({v[0] for v in violations}) < 3
                ):
                    feed()

    violations.sort(key=lambda v: v[0])
    wall = time.time() - t0
    coverage = {
        "states": agg["states"],
        "transitions": agg["transitions"],
        "traces_validated_against_impl": agg["traces"],
        "samples": samples,
        "cases_explored": done,
        "cases_in_bound": len(cases),
        "exhaustive": done == len(cases) and not replay,
        "bounds": getattr(mod, "BOUNDS", ""),
        **counts,
    }
    if digests:
        coverage["distinct_outcomes"] = len(digests)
    evidence = {
        "property": check,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    name = f"{check}.json" if not replay else f"replay/{check}-last.json"
    with open(os.path.join(EVIDENCE, name), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for key, what in known.items():
        if key in seen:
            print(f"KNOWN-FINDING: property={check} {what}")
        elif not replay:
            print(f"note: listed finding {key} of {check} was not observed in this run")
    status = 0
    shown = set()
    for i, case, f in violations:
        if f["message"] in shown or len(shown) >= 3:
            continue
        shown.add(f["message"])
        blob = json.dumps({"property": check, "case": case, "failure": f}, indent=1, default=str)
        tag = hashlib.sha1(blob.encode()).hexdigest()[:10]
        path = os.path.join(EVIDENCE, "replay", f"{check}-{tag}.json")
        with open(path, "w") as fh:
            fh.write(blob)
        print(f"VIOLATION property={check} replay={path}")
        print(f"  {f['message']}  case={json.dumps(case)}  {json.dumps(f['detail'], default=str)[:1500]}")
        print(f"  replay with: bin/check {check} --replay {path}")
        status = 1
    if errors and status == 0:
        for i, case, e in errors[:3]:
            print(f"HARNESS ERROR in case {json.dumps(case)}\n{e}", file=sys.stderr)
        status = 2
    print(
        f"{check} {tier}: {done}/{len(cases)} cases, {agg['states']} states, "
        f"{agg['transitions']} transitions, {agg['traces']} traces, "
        f"{len(violations)} violations, {wall:.1f}s"
    )
    return status


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    sys.exit(run(a.check, tier, a.replay, a.jobs, a.deadline))


if __name__ == "__main__":
    main()
