"""Spoil one reply in each recorded trace and see that TLC rejects the trace at that line.

usage: corrupt.py [PROPERTY ...]      Needs the traces the last runs left in build/.
Shows that trace validation decides by itself, without the replay.  Not part of any check.
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent


def good(width=None):
    def f(req, rep, refs):
        return req["k"] == "decode" and rep["ok"] and width in (None, req["width"])
    return f


def kind(*ks):
    return lambda req, rep, refs: req["k"] in ks


def put(*path, to):
    def f(rep):
        at = rep
        for p in path[:-1]:
            at = at[p]
        at[path[-1]] = to(at[path[-1]]) if callable(to) else to
    return f


def refuse(rep):
    rep.update(ok=False, e="InvalidOpcode")


def other_op(v):
    return "C.SUB" if v == "C.XOR" else "C.XOR" if v.startswith("C.") else "M.MUL" if v == "M.DIV" else "M.DIV"


def other_error(v):
    return "InvalidFunct3" if v == "InvalidOpcode" else "InvalidOpcode"


def more(v):
    return v + 1


def tail(s):
    return s[:-1] + ("9" if s[-1] != "9" else "8")


def referring(f):
    return lambda req, rep, refs: refs and f(req, rep, refs)


# property: (name, which return, how it is spoiled)
SPOIL = {
    "C01": [("refused", good(32), refuse)],
    "C02": [("opcode", good(32), put("v", "op", to=other_op))],
    "C03": [("rd", good(32), put("v", "rd", to=more))],
    "C04": [("imm", lambda q, r, f: good(32)(q, r, f) and r["v"]["himm"], put("v", "imm", to=more))],
    "C05": [("refused", good(16), refuse), ("opcode", good(16), put("v", "op", to=other_op))],
    "C06": [("rs2", good(16), put("v", "rs2", to=more))],
    "C07": [("imm", lambda q, r, f: good(16)(q, r, f) and r["v"]["himm"], put("v", "imm", to=more))],
    "C08": [("imm", lambda q, r, f: referring(good())(q, r, f) and q["isa"] == 64 and r["v"]["himm"], put("v", "imm", to=more))],
    "C09": [("panic", kind("decode"), put("panic", to=True)), ("parser", kind("imm"), put("panic", to=True))],
    "C10": [("error", lambda q, r, f: q["k"] == "decode" and not r["ok"], put("e", to=other_error))],
    "C11": [("flag", good(), put("v", "compressed", to=lambda b: not b))],
    "C12": [("imm", lambda q, r, f: q["k"] == "convert" and r["ok"] and f, put("v", "imm", to=more)),
            ("accepted", lambda q, r, f: q["k"] == "convert" and not r["ok"] and q["q"][0] + q["q"][1], put("ok", to=True))],
    "C13": [("part", lambda q, r, f: q["k"] in ("rd", "rs1", "rs2", "imm") and r["ok"] and r["has"], put("n", to=more)),
            ("decode", referring(good()), put("v", "imm", to=more))],
    "C14": [("format", referring(good()), put("v", "fmt", to="CjFormat")), ("register", good(), put("v", "rd", to=32))],
    "C15": [("panic", kind("print"), put("panic", to=True)), ("empty", kind("print"), put("s", to="")),
            ("lines", kind("print"), put("s", to=lambda s: s + "\n"))],
    "C16": [("mnemonic", kind("print"), put("s", to=lambda s: "x" + s)), ("name", kind("name"), put("s", to="add"))],
    "C17": [("reply", lambda q, r, f: q["k"] == "decode" and r["ok"], put("v", "imm", to=more))],
    "C18": [("same", referring(good()), None)],
    "C19": [("operand", lambda q, r, f: q["k"] == "print" and " " in r["s"], put("s", to=tail))],
    "C20": [("imm", lambda q, r, f: referring(good(32))(q, r, f) and r["v"]["himm"], put("v", "imm", to=more))],
    "C21": [("equal", kind("eqins"), put("has", to=lambda b: not b)), ("opcodes", kind("eqop"), put("has", to=lambda b: not b))],
    "C22": [("text", lambda q, r, f: q["k"] == "print" and f and " " in r["s"], put("s", to=tail))],
    "C23": [("text", kind("debug"), put("s", to=lambda s: s.replace("Instruction", "Inst"))),
            ("flag", kind("debug"), put("s", to=lambda s: s.replace("compressed: true", "compressed: tru3").replace("false", "true"))),
            ("long", kind("pretty"), put("s", to=lambda s: s.replace("rs2", "rs3")))],
    "C24": [("register", good(), put("v", "rd", to=32))],
    "C26": [("operand", lambda q, r, f: q["k"] == "print" and f and " " in r["s"], put("s", to=tail))],
}


def spoil(lines, which, how):
    """The trace up to the spoilt line, or None.  Returns behind the 40th suitable one are taken."""
    events = []
    seen = 0
    for n, l in enumerate(lines):
        e = json.loads(l)
        events.append(e)
        if e["ev"] != "ret" or not which(events[e["inv"] - 1]["req"], e["rep"], e["refs"]):
            continue
        seen += 1
        if seen < 40:
            continue
        if how is None:
            # C18: the instruction of an earlier word it is compared with.
            back = [events[r - 1] for r in e["refs"] if events[r - 1]["rep"]["ok"] and events[events[r - 1]["inv"] - 1]["req"]["w"] != events[e["inv"] - 1]["req"]["w"]]
            if not back:
                continue
            e["rep"] = json.loads(json.dumps(back[0]["rep"]))
        else:
            before = json.dumps(e["rep"])
            how(e["rep"])
            if json.dumps(e["rep"]) == before:
                continue
        return lines[:n] + [json.dumps(e)]
    return None


def one(job):
    prop, name, which, how = job
    path = HERE / "build" / prop / "trace.ndjson"
    if not path.exists():
        return prop, name, "no trace"
    lines = spoil(path.read_text().splitlines(), which, how)
    if lines is None:
        return prop, name, "nothing to spoil"
    with tempfile.TemporaryDirectory() as d:
        t = os.path.join(d, "trace.ndjson")
        pathlib.Path(t).write_text("\n".join(lines) + "\n")
        env = dict(os.environ, TRACE=t, PROPERTY=prop, JDK_JAVA_OPTIONS="-Xss64m -Xmx2g")
        r = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", "1", "-metadir", os.path.join(d, "states"), "-config", "Trace.cfg", "Trace.tla"],
                           cwd=HERE / "spec", env=env, capture_output=True, text=True)
        depth = re.search(r"search is (\d+)", r.stdout)
        at = int(depth[1]) if depth else 0
    if r.returncode and "TraceAccepted" in r.stdout and at == len(lines):
        return prop, name, f"rejected at line {at}"
    return prop, name, f"NOT REJECTED (line {len(lines)}, reached {at}, exit {r.returncode})"


def main():
    ids = sys.argv[1:] or sorted(SPOIL)
    jobs = [(p, *s) for p in ids for s in SPOIL[p]]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for prop, name, what in ex.map(one, jobs):
            print(prop, name, what, flush=True)
            bad += not what.startswith("rejected")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
