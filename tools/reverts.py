"""Undo each repair recorded in known_findings.json in /repo's working tree,
run the check of its property, restore /repo.  Every check must report.

usage: reverts.py [COMMIT ...]      Not part of any check.
"""
import json
import pathlib
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent


def git(*args, **kw):
    return subprocess.run(["git", "-C", "/repo", *args], capture_output=True, text=True, **kw)


def main():
    if git("status", "--porcelain", "--untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")
    bad = 0
    for line in json.loads((HERE / "known_findings.json").read_text())["fixed"]:
        _, prop, commit, what = line.split(" ", 3)
        prop = prop.removeprefix("property=")
        if sys.argv[1:] and commit not in sys.argv[1:]:
            continue
        undo = git("diff", commit, commit + "~1").stdout
        applied = git("apply", "-3", "-", input=undo)
        git("reset", "-q")
        try:
            if applied.returncode:
                print(commit, prop, "cannot be undone alone", flush=True)
                continue
            r = subprocess.run(["python3", "run.py", prop], cwd=HERE, capture_output=True, text=True)
            hit = any(l.startswith(f"VIOLATION property={prop} ") for l in r.stdout.splitlines())
            ok = r.returncode == 1 and hit
            bad += not ok
            print(commit, prop, "caught" if ok else f"exit {r.returncode}", what, flush=True)
        finally:
            git("checkout", "--", ".")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
