"""Run the check of a property, or replay a violation it found.

    python -m mc.run C01 [quick|thorough]
    python -m mc.run C01 --replay FILE
"""

import ast
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NONE = (1 << 62)


def environment(hash_seed):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), HERE]),
        PYTHONHASHSEED=str(hash_seed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX="/nonexistent/pycache",
        PYTHONUTF8="1",
    )
    for name in ("COLUMNS", "LINES", "NO_COLOR", "FORCE_COLOR", "TERM", "COLORTERM"):
        env.pop(name, None)
    env["TERM"] = "dumb"
    return env


def main():
    args = sys.argv[1:]
    prop_id = args[0]
    if "--replay" in args:
        return replay(prop_id, args[args.index("--replay") + 1])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit(f"unknown tier {tier}")
    return run(prop_id, tier)


def run(prop_id, tier):
    from mc import registry

    started = time.time()
    workers = int(os.environ.get("MC_WORKERS", os.cpu_count() or 8))
    out_dir = os.environ.get("MC_OUT", os.path.join(HERE, "evidence"))
    os.makedirs(out_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mc-")
    processes = []
    try:
        shared_path = os.path.join(tmp, "shared")
        with open(shared_path, "wb") as f:
            f.write(struct.pack(f"{workers + 1}q", NONE, *([-1] * workers)))
        for i in range(workers):
            log = open(os.path.join(tmp, f"log{i}"), "wb")
            processes.append(
                subprocess.Popen(
                    [sys.executable, "-m", "mc.worker", prop_id, tier, str(i), str(workers),
                     shared_path, os.path.join(tmp, f"out{i}"), os.path.join(tmp, f"scratch{i}")],
                    cwd=tmp, env=environment(i), stdin=subprocess.DEVNULL,
                    stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                )
            )
        watch(prop_id, processes, shared_path)
        return report(prop_id, tier, workers, tmp, out_dir, processes, started)
    finally:
        for p in processes:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def watch(prop_id, processes, shared_path):
    """Wait for the workers.  A worker limits the time of a case itself, but
    cannot while it is inside a built-in: then it is ended from here."""
    ticks = os.sysconf("SC_CLK_TCK")
    since, limit = {}, None
    while any(p.poll() is None for p in processes):
        time.sleep(0.05 if len(since) < len(processes) else 0.2)
        with open(shared_path, "rb") as f:
            slots = struct.unpack(f"{len(processes) + 1}q", f.read())
        for i, p in enumerate(processes):
            if p.poll() is not None or slots[1 + i] < 0:
                continue
            try:
                with open(f"/proc/{p.pid}/stat") as f:
                    spent = int(f.read().rsplit(")", 1)[1].split()[11]) / ticks
            except (OSError, IndexError):
                continue
            index, start = since.get(i, (None, 0))
            if index != slots[1 + i]:
                since[i] = slots[1 + i], spent
            elif spent - start > 60:
                if limit is None:
                    limit = 1.2 * getattr(registry_load(prop_id), "CASE_CPU", 40) + 15
                if spent - start > limit:
                    os.killpg(p.pid, signal.SIGKILL)


def report(prop_id, tier, workers, tmp, out_dir, processes, started):
    from mc import registry

    results, violations, errors = [], [], []
    with open(os.path.join(tmp, "shared"), "rb") as f:
        slots = struct.unpack(f"{workers + 1}q", f.read())
    for i, p in enumerate(processes):
        path = os.path.join(tmp, f"out{i}")
        if os.path.exists(path):
            with open(path) as f:
                results.append(json.load(f))
            if results[-1]["violation"]:
                violations.append(results[-1]["violation"])
            continue
        with open(os.path.join(tmp, f"log{i}"), errors="replace") as f:
            log = f.read()[-3000:]
        if slots[1 + i] >= 0 and p.returncode < 0:
            # The process was ended by a signal while it decided a case.
            violations.append(
                {"index": slots[1 + i], "case": None,
                 "message": f"the process was ended by signal {-p.returncode}"}
            )
        else:
            errors.append(f"worker {i} ended with {p.returncode}:\n{log}")

    prop = registry_load(prop_id)
    if errors and not violations:
        sys.stdout.write("".join(errors))
        return 2

    def merged(suffix):
        seen = set()
        for i in range(workers):
            path = os.path.join(tmp, f"out{i}{suffix}")
            if os.path.exists(path):
                with open(path, "rb") as f:
                    data = f.read()
                seen.update(data[k : k + 8] for k in range(0, len(data), 8))
        return len(seen)

    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    evaluations = sum(r["evaluations"] for r in results)
    totals = {r["total"] for r in results if "total" in r}
    complete = (
        not violations and len(results) == workers and totals == {evaluations}
    )
    if not violations and not complete:
        print(f"incomplete enumeration: {totals} enumerated, {evaluations} decided")
        return 2
    samples = [s for r in results for s in r["samples"]]

    coverage = {
        "rule": prop.RULE,
        "bounds": prop.bounds(tier) if hasattr(prop, "bounds") else prop.RULE,
        "exhaustive": complete,
        "samples": samples,
        "distinct_observed_outcomes": merged(".outcomes"),
        "workers_and_hash_seeds": workers,
    }
    if prop.LEVEL == "model_checking":
        coverage["states"] = merged(".states")
        coverage["transitions"] = counts.pop("transitions", 0)
        coverage["traces_validated_against_impl"] = counts.pop("traces", 0)
        coverage["cases_decided"] = evaluations
    else:
        coverage["evaluations"] = counts.pop("executions", evaluations)
        coverage["cases_decided"] = evaluations
        coverage["distinct_nontrivial"] = merged(".nontrivial")
    coverage.update(counts)
    known = [k for r in results for k in r["known"]]
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": prop.LEVEL,
        "coverage": coverage,
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(time.time() - started, 2),
        "violations": 1 if violations else 0,
    }
    with open(os.path.join(out_dir, f"{prop_id}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    for case, what in known:
        print(f"KNOWN-FINDING: property={prop_id} {what} [case {case}]")
    if violations:
        first = min(violations, key=lambda v: v["index"])
        if first["case"] is None:
            for index, case in enumerate(prop.cases(tier)):
                if index == first["index"]:
                    first["case"] = repr(case)
        replay_dir = os.path.join(out_dir, "replay")
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{prop_id}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": prop_id, "tier": tier, **first,
                 "how": f"./check {prop_id} --replay {path}"}, f, indent=1)
            f.write("\n")
        print(f"{prop_id}: {first['message']}")
        print(f"{prop_id}: case {first['index']}: {first['case'][:1000]}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    n = coverage.get("states") or coverage.get("distinct_nontrivial")
    print(f"{prop_id} {tier}: held on all {evaluations} cases ({n} "
          f"{'states' if 'states' in coverage else 'distinct non-trivial'}) in {evidence['wall_s']} s")
    return 0


def registry_load(prop_id):
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.dont_write_bytecode = True
    from mc import registry

    return registry.load(prop_id)


def replay(prop_id, path):
    if os.environ.get("PYTHONPYCACHEPREFIX") != "/nonexistent/pycache":
        os.execve(sys.executable,
                  [sys.executable, "-m", "mc.run", prop_id, "--replay", os.path.abspath(path)],
                  environment(0))
    from mc import core, worker

    with open(path) as f:
        saved = json.load(f)
    prop = registry_load(prop_id)
    tmp = tempfile.mkdtemp(prefix="mc-")
    try:
        os.chdir(tmp)
        signal.signal(signal.SIGVTALRM, lambda *_: (_ for _ in ()).throw(core.TooLong("no result")))
        case = ast.literal_eval(saved["case"])
        failure = worker.decide(prop, case, core.Ctx(tmp), 120, core)
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    if failure:
        print(f"{prop_id}: {failure}\n{prop_id}: case {saved['case'][:1000]}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    print(f"{prop_id}: the case does not violate the property")
    return 0


if __name__ == "__main__":
    sys.exit(main())
