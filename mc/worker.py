"""One worker of a check: decides every N-th case of the enumeration."""

import importlib
import json
import mmap
import os
import resource
import signal
import struct
import sys
import time
import traceback

CASE_CPU_SECONDS = float(os.environ.get("MC_CASE_CPU", "40"))
WORKER_MEMORY = 3 << 30


def main():
    prop_id, tier, worker, workers, shared_path, out_path, scratch = sys.argv[1:8]
    worker, workers = int(worker), int(workers)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))

    from mc import core, registry

    prop = registry.load(prop_id)
    listed = registry.known_cases(prop_id)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    ctx = core.Ctx(scratch)

    with open(shared_path, "r+b") as f:
        shared = mmap.mmap(f.fileno(), 0)
    # Slot 0: the lowest index of a violation found so far, by any worker.
    # Slot 1 + worker: the index of the case that worker is deciding.

    def too_long(*_):
        raise core.TooLong(f"no result after {CASE_CPU_SECONDS:.0f} s of CPU time")

    signal.signal(signal.SIGVTALRM, too_long)
    limit = getattr(prop, "CASE_CPU", CASE_CPU_SECONDS)

    result = {
        "worker": worker,
        "evaluations": 0,
        "violation": None,
        "known": [],
        "samples": [],
    }
    next_sample = 0
    index = -1
    case = None
    started = time.time()
    for index, case in enumerate(prop.cases(tier)):
        if index % workers != worker:
            continue
        if index > struct.unpack_from("q", shared, 0)[0]:
            break
        struct.pack_into("q", shared, 8 * (1 + worker), index)
        ctx.note = None
        failure = decide(prop, case, ctx, limit, core)
        result["evaluations"] += 1
        if failure is None:
            if worker == 0 and index >= next_sample and len(result["samples"]) < 12:
                result["samples"].append(
                    {"index": index, "case": core.show(case, 600), "observed": None if ctx.note is None else core.show(ctx.note, 600)}
                )
                next_sample = max(8, 4 * index)
            continue
        if repr(case) in listed:
            result["known"].append([repr(case), listed[repr(case)]])
            continue
        result["violation"] = {"index": index, "case": repr(case), "message": failure}
        low = struct.unpack_from("q", shared, 0)[0]
        if index < low:
            struct.pack_into("q", shared, 0, index)
        break
    else:
        result["total"] = index + 1
    struct.pack_into("q", shared, 8 * (1 + worker), -2)

    result["wall"] = time.time() - started
    result["counts"] = ctx.counts
    with open(out_path + ".nontrivial", "wb") as f:
        f.write(b"".join(ctx.hashes))
    with open(out_path + ".states", "wb") as f:
        f.write(b"".join(ctx.states))
    with open(out_path + ".outcomes", "wb") as f:
        f.write(b"".join(ctx.outcomes))
    with open(out_path, "w") as f:
        json.dump(result, f)


def decide(prop, case, ctx, limit, core):
    """None if the property holds for the case, else what went wrong."""
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            prop.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except core.Violation as e:
        return str(e)
    except core.TooLong as e:
        return str(e)
    except MemoryError:
        return "ran out of memory"
    except (Exception, SystemExit) as e:
        frames = traceback.extract_tb(e.__traceback__)[-3:]
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(frames))
        return f"raised {type(e).__name__}: {core.show(str(e))} in {where}"
    return None


if __name__ == "__main__":
    main()
