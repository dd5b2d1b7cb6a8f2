#!/opt/venv/bin/python
"""Confirm a planted change: plant.py ID... (all without arguments).

The patch applies to a copy of /repo's HEAD, the stable tests pass with it, the demonstration fails with it
and passes without it; with --check also whether the property's check (with --all: which checks) notices it.
"""
import argparse
import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, **kwargs):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=False, **kwargs)


def tests(copy):
    run(["bash", "-c", "cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --junitxml=%s/../junit-%s.xml tests" % (copy, copy, copy, copy.name)])
    import xml.etree.ElementTree as ET

    path = copy.parent / ("junit-%s.xml" % copy.name)
    passed = set()
    for case in ET.parse(path).getroot().iter("testcase"):
        if not list(case):
            passed.add("%s::%s" % (case.get("classname"), case.get("name")))
    path.unlink()
    return sorted(STABLE - passed)


def confirm(name, args):
    where = SEEDED / name
    copy = pathlib.Path("/tmp/plantcheck/%s" % name)
    shutil.rmtree(copy, ignore_errors=True)
    copy.mkdir(parents=True)
    demo = pathlib.Path("/tmp/plantcheck/demo-%s" % name)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(where, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    out = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        run(["bash", "-c", "git -C /repo archive HEAD | tar -x -C %s" % copy])
        clean = run(["bash", str(demo / "demo.sh")], cwd=copy, env=env, timeout=300)
        if clean.returncode != 0:
            out.append("DEMO FAILS CLEAN: %s" % clean.stdout[-600:])
        applied = run(["git", "apply", str(where / "patch.diff")], cwd=copy, env=dict(env, GIT_CEILING_DIRECTORIES="/tmp"))
        if applied.returncode != 0:
            return name, ["PATCH DOES NOT APPLY: %s" % applied.stdout[-400:]]
        # removed lines must be lines of the original repository
        changed = {}
        current = None
        for line in (where / "patch.diff").read_text().splitlines():
            if line.startswith("--- a/"):
                current = line[6:]
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                changed.setdefault(current, []).append(line[1:])
        original = 0
        for path, lines in changed.items():
            base = run(["git", "-C", "/repo", "show", "d9dc1d0:%s" % path]).stdout.splitlines()
            original += sum(line in base for line in lines)
        if not original:
            out.append("NO ORIGINAL LINE CHANGED")
        patched = run(["bash", str(demo / "demo.sh")], cwd=copy, env=env, timeout=300)
        if patched.returncode == 0:
            out.append("DEMO PASSES WITH PATCH")
        elif "FAILED:" not in patched.stdout and "Error" not in patched.stdout:
            out.append("DEMO OUTPUT: %s" % patched.stdout[-300:])
        missing = tests(copy)
        if missing:
            out.append("TESTS NOTICE: %s" % missing[:4])
        if args.check or args.all:
            prop = json.load(open(where / "meta.json"))["property"]
            ids = ["C%02d" % i for i in range(1, 31)] if args.all else [prop]
            caught = []
            for cid in ids:
                proc = run(
                    ["/opt/venv/bin/python", str(args.verif / "check.py"), cid], cwd=args.verif,
                    env=dict(env, VERIF_REPO=str(copy), VERIF_SEED=args.seed, VERIF_TIER="quick"),
                )
                if proc.returncode == 1 and "VIOLATION property=%s" % cid in proc.stdout:
                    caught.append(cid)
                elif proc.returncode not in (0, 1):
                    out.append("%s exits %d" % (cid, proc.returncode))
            out.append("caught by %s" % (" ".join(caught) or "NOTHING"))
            if prop not in caught:
                out.append("NOT CAUGHT by %s" % prop)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
    return name, out


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("ids", nargs="*")
    parser.add_argument("--check", action="store_true")
    parser.add_argument("--all", action="store_true")
    parser.add_argument("--seed", default="1")
    parser.add_argument("--jobs", type=int, default=4)
    args = parser.parse_args()
    ids = args.ids or sorted(p.name for p in SEEDED.iterdir() if (p / "patch.diff").exists())
    pathlib.Path("/tmp/plantcheck").mkdir(exist_ok=True)
    # replays and evidence go to a copy
    args.verif = pathlib.Path("/tmp/plantcheck/verif-%d" % os.getpid())
    if args.check or args.all:
        shutil.copytree(VERIF, args.verif, ignore=shutil.ignore_patterns(".git", "__pycache__", "evidence", "replays", "seeded"))
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        for name, out in ex.map(lambda i: confirm(i, args), ids):
            print(name, "; ".join(out) or "ok", flush=True)
    shutil.rmtree(args.verif, ignore_errors=True)


if __name__ == "__main__":
    main()
