"""Apply each behaviour-preserving change in selftest/ to /repo, run every
check on it, restore /repo.  Every check must stay quiet.

usage: quiet.py [FILE.diff ...] [-- PROPERTY ...]      Not part of any check.
"""
import json
import pathlib
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent


def git(*args):
    return subprocess.run(["git", "-C", "/repo", *args], capture_output=True, text=True)


def main():
    args = sys.argv[1:]
    cut = args.index("--") if "--" in args else len(args)
    files, ids = args[:cut], args[cut + 1:]
    files = files or sorted(p.name for p in (HERE / "selftest").glob("*.diff"))
    ids = ids or [json.loads(l)["id"] for l in (HERE / "properties.jsonl").read_text().splitlines()]
    if git("status", "--porcelain", "--untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")
    bad = 0
    for name in files:
        applied = git("apply", str(HERE / "selftest" / name))
        if applied.returncode:
            sys.exit(f"{name} does not apply: {applied.stderr}")
        try:
            for prop in ids:
                r = subprocess.run(["python3", "run.py", prop], cwd=HERE, capture_output=True, text=True)
                print(name, prop, "quiet" if r.returncode == 0 else f"exit {r.returncode}", flush=True)
                if r.returncode:
                    bad += 1
                    print(r.stdout[-1500:], r.stderr[-1500:], flush=True)
        finally:
            git("checkout", "--", ".")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
