"""Apply each planted bug to /repo in turn, run checks on it, restore /repo.

usage: matrix.py [--all] [BUG ...]
Default: the bug's own property.  --all: every property (slow).
Prints one line per bug and writes build/matrix.json.  Not part of any check.
"""
import json
import pathlib
import subprocess
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
SEEDED = HERE / "seeded"


def git(*args):
    return subprocess.run(["git", "-C", "/repo", *args], capture_output=True, text=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    every = "--all" in sys.argv
    ids = [json.loads(l)["id"] for l in (HERE / "properties.jsonl").read_text().splitlines()]
    if git("status", "--porcelain", "--untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")
    out = HERE / "build" / "matrix.json"
    done = json.loads(out.read_text()) if out.exists() else {}
    for bug in sorted(p.name for p in SEEDED.iterdir()):
        if args and bug not in args:
            continue
        own = json.loads((SEEDED / bug / "meta.json").read_text())["property"]
        applied = git("apply", str(SEEDED / bug / "patch.diff"))
        if applied.returncode:
            print(bug, "does not apply", applied.stderr)
            continue
        try:
            row = done.setdefault(bug, {})
            for prop in ids if every else [own]:
                r = subprocess.run(["python3", "run.py", prop], cwd=HERE, capture_output=True, text=True)
                hit = any(l.startswith(f"VIOLATION property={prop} ") for l in r.stdout.splitlines())
                row[prop] = "caught" if r.returncode == 1 and hit else {0: "quiet"}.get(r.returncode, f"exit {r.returncode}")
        finally:
            git("checkout", "--", ".")
        print(bug, own, row[own], " ".join(p for p in row if p != own and row[p] == "caught"), flush=True)
        out.write_text(json.dumps(done, indent=1))


if __name__ == "__main__":
    main()
