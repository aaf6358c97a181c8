"""Development aid: makes and confirms planted bugs (not used by any check).

plant(id, property, [(file, old, new), ...], needs, breaks, demo) writes
/verif/seeded/<id>/ after confirming in a scratch copy that the patch applies,
the stable pytest tests pass, and the demo fails with it and passes without.
"""
import json, os, shutil, subprocess, sys, tempfile

REPO = "/repo"
SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
C=$(mktemp -d) && export PYTHONPYCACHEPREFIX="$C"
timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$C"
exit $rc
"""
STABLE = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]


def sh(cmd, cwd, env=None, timeout=700):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})


def plant(id, prop, edits, needs, breaks, demo, notebooks=False):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    w = os.path.join(d, "repo")
    try:
        subprocess.run(["cp", "-a", REPO, w], check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{id}: {s.count(old)} matches of {old[:50]!r} in {f}"
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", w).stdout
        b = os.path.join(d, "bug")
        os.makedirs(b)
        open(os.path.join(b, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(b, "demo.sh"), 0o755)
        open(os.path.join(b, "demo.py"), "w").write(demo.lstrip("\n"))
        r = sh(f"bash {b}/demo.sh", w)
        if r.returncode == 0:
            return f"{id}: demo passes with the bug"
        bad = (r.stdout + r.stderr)[-300:]
        r = sh(f"bash {b}/demo.sh", REPO)
        if r.returncode != 0:
            return f"{id}: demo fails on the clean tree: {(r.stdout + r.stderr)[-600:]}"
        env = {"PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONPYCACHEPREFIX": os.path.join(d, "pyc")}
        r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -x", w, env)
        if r.returncode != 0:
            return f"{id}: tests fail: {r.stdout[-600:]}"
        # changed lines must be lines of the original repository
        base = sh("git rev-list --max-parents=0 HEAD", w).stdout.split()[0]
        for f, old, new in edits:
            orig = sh(f"git show {base}:{f}", w).stdout.split("\n")
            for line in patch.split("\n"):
                if line.startswith("-") and not line.startswith("---") and line[1:] not in orig and line[1:].strip():
                    if not any(line[1:] in sh(f"git show {base}:{g}", w).stdout.split("\n") for g, _, _ in edits):
                        return f"{id}: changes a line that is not original: {line}"
        out = os.path.join(SEEDED, id)
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(b, out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return f"{id}: ok [{bad.strip().splitlines()[-1] if bad.strip() else ''}]"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(specs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda s: plant(*s[:6]), specs):
            print(r, flush=True)
