"""Confirm planted changes, and see which checks catch them.

    python tools/seed.py [--check] [--also C01,C02] ID...     (default: all of seeded/)

Each is applied to a copy of /repo that is mounted over /repo in a namespace of
its own, built, tested and demonstrated there; --check runs its property's check.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def shell(script, copy=None, **env):
    if copy:
        script = f"mount --bind {copy} /repo && cd /repo && {script}"
        command = ["unshare", "-rm", "sh", "-c", script]
    else:
        command = ["sh", "-c", f"cd /repo && {script}"]
    r = subprocess.run(command, capture_output=True, text=True, env={**os.environ, **env},
                       stdin=subprocess.DEVNULL)
    return r.returncode, r.stdout + r.stderr


def confirm(name, checks):
    seed = os.path.join(HERE, "seeded", name)
    with open(os.path.join(seed, "meta.json")) as f:
        meta = json.load(f)
    tmp = tempfile.mkdtemp(prefix="seed-")
    problems, caught = [], {}
    try:
        demo = os.path.join(tmp, "demo")
        shutil.copytree(seed, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        env = {"PYTHONDONTWRITEBYTECODE": "1"}
        code, out = shell(f"bash {demo}/demo.sh", copy, **env)
        if code:
            problems.append(f"demo fails on the unchanged tree: {out[-500:]}")
        code, out = shell(f"git apply {seed}/patch.diff", copy)
        if code:
            return [f"does not apply: {out}"], {}
        code, out = shell("bash /opt/vp/build.sh", copy)
        if code:
            problems.append(f"build: {out[-500:]}")
        code, out = shell(f"bash /opt/vp/test.sh {tmp}/out.json", copy)
        with open("/opt/vp/BASELINE.json") as f:
            stable = json.load(f)
        stable = stable["stable"] if isinstance(stable, dict) else stable
        with open(f"{tmp}/out.json") as f:
            passed = set(json.load(f)["passed"])
        if failed := [t for t in stable if t not in passed]:
            problems.append(f"{len(failed)} tests fail: {failed[:3]}")
        code, out = shell(f"timeout 300 bash {demo}/demo.sh", copy, **env)
        meta["demo"] = out.strip()[-200:]
        if not code:
            problems.append("demo passes with the patch")
        if not problems or "-f" in sys.argv:
            for check in checks or ():
                start = time.time()
                code, out = shell(f"{HERE}/check {check or meta['property']} quick", copy, MC_OUT=f"{tmp}/ev", VERIF_SEED="1")
                caught[check or meta["property"]] = (code, round(time.time() - start), out.strip()[-400:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return problems, caught


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    checks = [None] if "--check" in sys.argv else []
    if "--also" in sys.argv:
        also = sys.argv[sys.argv.index("--also") + 1]
        args.remove(also)
        checks += also.split(",")
    for name in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        problems, caught = confirm(name, checks)
        print(f"{name}: {'OK' if not problems else 'BAD ' + '; '.join(problems)}", flush=True)
        for check, (code, seconds, out) in caught.items():
            word = {0: "MISSED", 1: "caught"}.get(code, "ERROR")
            detail = "" if word == "MISSED" else " " + out[:300].replace("\n", " | ")
            print(f"    {word} by {check} in {seconds} s{detail}", flush=True)


main()
