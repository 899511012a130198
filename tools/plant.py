"""
Confirm planted bugs and see which checks catch them. Uses scratch copies of /repo under /tmp.

plant.py add SPEC.py [NAME...]   SPEC defines BUGS: dicts with name, property, edits [(file, old, new)], needs, breaks, demo
plant.py run [NAME...] [--checks C01,C02] [--seed N]   run checks against the bugs in /verif/seeded
"""

import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(
        cmd, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout, capture_output=True, text=True, shell=isinstance(cmd, str)
    )


def copy():
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    repo = os.path.join(work, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    return work, repo


def tests(work, repo):
    with open("/opt/vp/test.sh", encoding="utf-8") as fh:
        script = fh.read().replace("cd /repo", f"cd {repo}").replace("/repo/test:", "x:").replace("find /repo", f"find {repo}")
        script = script.replace("PYTHONPATH=/repo:/repo/test", f"PYTHONPATH={repo}:{repo}/test").replace("PYTHONPATH=/repo", f"PYTHONPATH={repo}")
    path = os.path.join(work, "test.sh")
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(script)
    out = sh(["bash", path, os.path.join(work, "t.json")])
    last = out.stdout.strip().split("\n")[-1]
    return last == "456 passed, 0 failed", out.stdout[-1500:] + out.stderr[-500:]


def add(bug):
    work, repo = copy()
    try:
        for name, old, new in bug["edits"]:
            path = os.path.join(repo, name)
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
            if text.count(old) != 1:
                return bug["name"], f"edit of {name}: {text.count(old)} matches for {old[:50]!r}"
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(text.replace(old, new))
        diff = sh(["git", "diff"], cwd=repo).stdout
        if not original(repo, bug["edits"]):
            return bug["name"], "doesn't change lines of the original repository"
        folder = os.path.join(work, "demo")
        os.makedirs(folder)
        with open(os.path.join(folder, "demo.sh"), "w", encoding="utf-8") as fh:
            fh.write(bug.get("demo_sh", DEMO))
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        with open(os.path.join(folder, "demo.py"), "w", encoding="utf-8") as fh:
            fh.write(bug["demo"].lstrip("\n"))
        clean = sh(["bash", os.path.join(folder, "demo.sh")], cwd="/repo")
        if clean.returncode != 0:
            return bug["name"], "demo fails on the unchanged tree: " + clean.stderr[-800:] + clean.stdout[-300:]
        broken = sh(["bash", os.path.join(folder, "demo.sh")], cwd=repo)
        if broken.returncode == 0:
            return bug["name"], "demo passes on the changed tree"
        ok, log = tests(work, repo)
        if not ok:
            return bug["name"], "tests: " + log
        out = os.path.join(SEEDED, bug["name"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(folder, out)
        with open(os.path.join(out, "patch.diff"), "w", encoding="utf-8") as fh:
            fh.write(diff)
        with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as fh:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, fh, indent=1)
            fh.write("\n")
        return bug["name"], "added; " + run_in(work, repo, [bug["property"]], 1)
    finally:
        shutil.rmtree(work)


def original(repo, edits):
    "Say whether the edits change lines that aren't ours."
    base = sh("git rev-list --max-parents=0 HEAD", cwd=repo).stdout.split()[0]
    for name, old, new in edits:
        before = sh(["git", "show", f"{base}:{name}"], cwd=repo).stdout.split("\n")
        for line in set(old.split("\n")) - set(new.split("\n")):
            if line.strip() and any(line in x for x in before):
                return True
    return False


def run_in(work, repo, checks, seed):
    out = []
    for prop in checks:
        res = sh(
            [os.path.join(HERE, "check.sh"), prop, "--tier", "quick", "--seed", str(seed)],
            env={"HTTPLINT_REPO": repo, "HTTPLINT_EVIDENCE": os.path.join(work, "evidence")},
        )
        hit = f"VIOLATION property={prop} " in res.stdout
        what = [x.strip() for x in res.stdout.split("\n") if x.startswith("  ")][:1]
        out.append(f"{prop}: {'CAUGHT' if hit and res.returncode == 1 else f'missed rc={res.returncode}'} {what[0][:150] if what else res.stdout[-200:] if not hit else ''}")
    return "; ".join(out)


def run(name, checks, seed):
    with open(os.path.join(SEEDED, name, "meta.json"), encoding="utf-8") as fh:
        prop = json.load(fh)["property"]
    work, repo = copy()
    try:
        res = sh(["git", "apply", os.path.join(SEEDED, name, "patch.diff")], cwd=repo)
        if res.returncode:
            return name, "patch doesn't apply: " + res.stderr
        return name, run_in(work, repo, checks or [prop], seed)
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    mode = args.pop(0)
    checks, seed = None, 1
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    if "--seed" in args:
        i = args.index("--seed")
        seed = int(args[i + 1])
        del args[i:i + 2]
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        if mode == "add":
            bugs = runpy.run_path(args.pop(0))["BUGS"]
            jobs = [pool.submit(add, b) for b in bugs if not args or b["name"] in args]
        else:
            jobs = [pool.submit(run, n, checks, seed) for n in (args or sorted(os.listdir(SEEDED)))]
        for job in concurrent.futures.as_completed(jobs):
            name, what = job.result()
            print(f"{name}: {what}", flush=True)


if __name__ == "__main__":
    main()
