"""Plants bugs: ``plant.py SPEC.py...`` makes /verif/seeded/<id> from each spec.

A spec is a Python file with a BUGS list of dicts: id, prop, needs, breaks, edits
([(file, old, new)]), and demo (a Python program). Each is confirmed in a scratch copy
before it's kept: the patch only removes lines of the original repository, the stable
tests pass with it, and the demonstration fails with it and passes without it.

``plant.py --catch [ID...]`` runs the quick checks of the bugs' properties (all properties
with --all) against scratch copies with the bugs applied and prints which are caught.
"""

import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# Run in the repository: exits 0 if the property holds, nonzero with the change.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(
        cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True
    )


def copy(tmp):
    dst = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", dst], check=True)
    return dst


def stable(repo):
    r = run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov",
         "--import-mode", "importlib", "--randomly-seed=0",
         "--randomly-dont-reorganize", "--timeout=300", "tests"],
        repo,
        {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"},
    )
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr
    return r.returncode == 0, "\n".join(r.stdout.splitlines()[-8:]) if r.returncode else tail


def base_lines(repo, path):
    """Which lines of the file are the original repository's?"""
    root = run(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.strip()
    out = run(["git", "blame", "-s", "-l", "HEAD", "--", path], repo).stdout
    return [l.split()[0].lstrip("^")[:39] == root[:39] for l in out.splitlines()]


def plant(bug):
    with tempfile.TemporaryDirectory(prefix="plant-") as tmp:
        repo = copy(tmp)
        for path, old, new in bug["edits"]:
            p = os.path.join(repo, path)
            with open(p) as fp:
                text = fp.read()
            if text.count(old) != 1:
                return f"{bug['id']}: {text.count(old)} matches for {old!r} in {path}"
            with open(p, "w") as fp:
                fp.write(text.replace(old, new))
        diff = run(["git", "diff", "--no-color"], repo).stdout
        notes = []
        path, lno, n_old = None, 0, 0
        for line in diff.splitlines():
            if line.startswith("--- "):
                path = line[6:]
                orig = base_lines(repo, path)
            elif line.startswith("@@"):
                lno = int(line.split()[1].split(",")[0][1:]) - 1
            elif line.startswith("-"):
                if orig[lno]:
                    n_old += 1
                else:
                    notes.append(f"removes a line of ours: {line}")
                lno += 1
            elif line.startswith(" "):
                lno += 1
        if not n_old:
            notes.append("removes no original line")
        ok, tail = stable(repo)
        if not ok:
            return f"{bug['id']}: TESTS FAIL\n{tail}"
        dst = os.path.join(tmp, "seeded")
        os.mkdir(dst)
        with open(os.path.join(dst, "demo.sh"), "w") as fp:
            fp.write(DEMO_SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "demo.py"), "w") as fp:
            fp.write(bug["demo"].strip() + "\n")
        with open(os.path.join(dst, "patch.diff"), "w") as fp:
            fp.write(diff)
        with open(os.path.join(dst, "meta.json"), "w") as fp:
            json.dump(
                {"property": bug["prop"], "needs": bug["needs"],
                 "what_it_breaks": bug["breaks"]}, fp, indent=1)
            fp.write("\n")
        good = run(["bash", os.path.join(dst, "demo.sh")], "/repo")
        if good.returncode:
            return f"{bug['id']}: DEMO FAILS UNPATCHED\n{good.stderr[-800:]}"
        bad = run(["bash", os.path.join(dst, "demo.sh")], repo)
        if not bad.returncode:
            return f"{bug['id']}: DEMO PASSES PATCHED"
        final = os.path.join(SEEDED, bug["id"])
        if os.path.isdir(final):
            shutil.rmtree(final)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.copytree(dst, final)
        last = (bad.stderr.strip().splitlines() or [f"rc={bad.returncode}"])[-1]
        return f"{bug['id']}: ok ({last[:100]}) {'; '.join(notes)}"


def catch(bug_id, props):
    with open(os.path.join(SEEDED, bug_id, "meta.json")) as fp:
        own = json.load(fp)["property"]
    with tempfile.TemporaryDirectory(prefix="catch-") as tmp:
        repo = copy(tmp)
        subprocess.run(
            ["git", "apply", os.path.join(SEEDED, bug_id, "patch.diff")],
            cwd=repo, check=True)
        out = []
        for p in props or [own]:
            r = run(
                [PY, "/verif/check.py", p], "/verif",
                {"BINOBJ_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick",
                 "BINOBJ_OUT": tmp},
                timeout=1800)
            res = {0: "-", 1: "CAUGHT"}.get(r.returncode, f"rc={r.returncode}")
            if r.returncode == 1 and f"VIOLATION property={p} " not in r.stdout:
                res = "?"
            out.append((p, res, [l for l in r.stdout.splitlines() if "kind" in l][:1]))
        return bug_id, own, out


def main(argv):
    if argv and argv[0] == "--catch":
        everything = "--all" in argv
        ids = [a for a in argv[1:] if a != "--all"] or sorted(os.listdir(SEEDED))
        props = None
        if everything:
            with open("/verif/MANIFEST.json") as fp:
                props = [c["property"] for c in json.load(fp)["checks"]]
        jobs = int(os.environ.get("JOBS", "2"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            for bug_id, own, out in ex.map(lambda i: catch(i, props), ids):
                print(f"{bug_id} [{own}]", " ".join(
                    f"{p}:{r}" for p, r, _ in out if r != "-" or p == own), flush=True)
        return 0
    bugs = [b for a in argv for b in runpy.run_path(a)["BUGS"]]
    with cf.ThreadPoolExecutor(8) as ex:
        for msg in ex.map(plant, bugs):
            print(msg, flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
