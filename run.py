#!/usr/bin/env python3
"""Decides one property: run.py <id>.

1. TLC checks the property on the specification (spec/*.tla).
2. TLC exports the checked tables and complete example calls.
3. The harness is built against /repo and compared with the export: TLC's calls are replayed and
   the property is judged on every word.
4. A session with the crate is recorded and TLC decides whether it is a behaviour of the
   specification as far as the property is concerned.

Exit 0: held. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
if TIER not in ("quick", "thorough"):
    TIER = "quick"

# Properties a panic, hang or crash of the crate breaks.
TOTAL = {"C01", "C05", "C09", "C12", "C13", "C15", "C21", "C22", "C23", "C25"}
ONLY32 = {"C01", "C02", "C03", "C04"}
ONLY16 = {"C05", "C06", "C07", "C20"}

# What the symbolic comparison of all words (Partition.tla) contributes to a property.
PARTITION = {"C01": "TreeIsListing OnlyRecorded", "C02": "TreeIsListing", "C05": "TreeIsListing OnlyRecorded",
             "C03": "OperandsAreFields", "C04": "OperandsAreFields", "C06": "OperandsAreFields", "C07": "OperandsAreFields",
             "C18": "OperandsAreFields", "C08": "XlenDecides", "C10": "ErrorsExplain", "C11": "LengthBits"}


class Broken(Exception):
    """The check failed, not the property."""


def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if out:
        with open(out, "w") as f:
            f.write(p.stdout)
    return p


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.work = os.path.join(HERE, "build", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.export = os.path.join(self.work, "export")
        os.makedirs(self.export)
        self.target = os.environ.get("CONFORM_TARGET", os.path.join(HERE, "build", "target"))
        self.models = []
        self.violations = []   # (what, replay text)
        self.known = []
        self.cov = {}
        self.t0 = time.time()

    # -- TLC ------------------------------------------------------------------------------------
    def tlc(self, name, module, cfg, env=None, workers=8, timeout=600, more=()):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        e = {"VERIF_SEED": SEED, "MC_SAMPLES": 2, "MC_MODE": "rows", "JDK_JAVA_OPTIONS": "-Xss64m -Xmx8g"}
        e.update(env or {})
        p = sh(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", cfg] + list(more) + [module + ".tla"],
               timeout, e, SPEC, os.path.join(d, "tlc.log"))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        m = ([None] + list(re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", p.stdout)))[-1]
        depth = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
        return {"name": name, "code": p.returncode, "out": p.stdout,
                "transitions": int(m[1]) if m else 0, "states": int(m[2]) if m else 0,
                "left": int(m[3]) if m else -1, "depth": int(depth[1]) if depth else 0}

    def model(self, name, module, cfg, env=None, expect=None, timeout=600):
        """A model-checking run. `expect`: the invariant that must fail (a model with a planted flaw)."""
        r = self.tlc(name, module, cfg, env, timeout=timeout)
        if expect is None:
            if r["code"] != 0 or r["left"] != 0:
                raise Broken("model %s: TLC says\n%s" % (name, r["out"][-3000:]))
        elif "Invariant %s is violated" % expect not in r["out"]:
            raise Broken("model %s: TLC should have found the planted flaw\n%s" % (name, r["out"][-2000:]))
        r.pop("out")
        r["expected_violation"] = expect
        self.models.append(r)

    def pipeline_cfg(self, extra=(), props=()):
        path = os.path.join(self.work, "MC.cfg")
        with open(path, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n  Groups <- MCGroups\n  CallsOf <- MCCallsOf\n")
            f.write("INVARIANTS %s RowsDisjoint IdealTree\n" % self.pid)
            for p in props:
                f.write("PROPERTIES %s\n" % p)
            f.write("CHECK_DEADLOCK FALSE\n")
        return path

    def models_of(self):
        p = self.pid
        if p == "C17":
            self.model("session", "MCSession", "MCSessionDeep.cfg" if THOROUGH else "MCSession.cfg", timeout=800)
            self.model("session-cached", "MCSession", "MCSessionFull.cfg", timeout=800)
            for flaw in ("word", "latch", "count", "sticky", "thread"):
                cfg = os.path.join(self.work, "flaw-%s.cfg" % flaw)
                with open(os.path.join(SPEC, "MCSessionWord.cfg")) as f:
                    text = f.read()
                with open(cfg, "w") as f:
                    f.write(text.replace('"word"', '"%s"' % flaw))
                self.model("session-flawed-" + flaw, "MCSession", cfg, expect="Pure")
            self.model("session-live", "MCSession", "MCSessionLive.cfg")
            return
        if p == "C25":
            self.model("writer", "MCWriter", "MCWriter.cfg")
            for flaw in ("deaf", "silent", "late", "eager"):
                cfg = os.path.join(self.work, "flaw-%s.cfg" % flaw)
                with open(os.path.join(SPEC, "MCWriter.cfg")) as f:
                    text = f.read()
                with open(cfg, "w") as f:
                    f.write(text.replace('"full"', '"%s"' % flaw).replace("PROPERTIES Closes\n", ""))
                self.model("writer-flawed-" + flaw, "MCWriter", cfg, expect="C25")
            return
        cfg = self.pipeline_cfg()
        if p in ONLY32:
            modes = ["rows32"]
        elif p in ONLY16:
            modes = ["all16"]
        else:
            modes = ["rows"]
        if THOROUGH:
            modes = {"rows32": ["rows32", "cubes", "grid"], "all16": ["all16"], "rows": ["rows", "all16", "cubes", "grid"]}[modes[0]]
        for m in modes:
            self.model(m, "MCRanges" if p == "C24" else "MCPipeline", cfg, {"MC_MODE": m, "MC_SAMPLES": 4 if THOROUGH and m.startswith("rows") else 2}, timeout=800)
        if p in PARTITION:
            sym = os.path.join(self.work, "partition.cfg")
            with open(sym, "w") as f:
                widths = "{32}" if p in ONLY32 else "{16}" if p in ONLY16 else "{16, 32}"
                f.write("SPECIFICATION Spec\nCONSTANT Widths = %s\nINVARIANTS OneRow %s\nCHECK_DEADLOCK FALSE\n" % (widths, PARTITION[p]))
            self.model("partition", "Partition", sym)
        if p == "C09":
            live = os.path.join(self.work, "live.cfg")
            with open(live, "w") as f:
                f.write("SPECIFICATION Spec\nCONSTANTS\n  Groups <- MCGroups\n  CallsOf <- MCCallsOf\nPROPERTIES Terminates\n")
                f.write("CHECK_DEADLOCK FALSE\n")
            self.model("live", "MCPipeline", live, {"MC_MODE": "rows16", "MC_SAMPLES": 0})
        if p == "C11":
            self.model("stream", "MCStream", "MCStream.cfg", {"STREAM_LEN": 5 if THOROUGH else 4}, timeout=800)

    def do_export(self):
        r = self.tlc("export-run", "Export", "Export.cfg", {"EXPORT_DIR": self.export, "MC_SAMPLES": 6 if THOROUGH else 2}, workers=1)
        if r["code"] != 0 or not os.path.exists(os.path.join(self.export, "vectors.ndjson")):
            raise Broken("export: TLC says\n" + r["out"][-3000:])
        if self.pid == "C17":
            env = {"BEHAVIOURS": os.path.join(self.export, "behaviours.ndjson"), "REQUESTS": os.path.join(self.export, "requests.ndjson")}
            r = self.tlc("generate", "SessionGen", "SessionGen.cfg", env, workers=1,
                         more=["-simulate", "num=%d" % (4000 if THOROUGH else 600), "-depth", "42", "-seed", str(SEED)])
            if r["code"] != 0 or not os.path.exists(env["BEHAVIOURS"]):
                raise Broken("generating behaviours: TLC says\n" + r["out"][-3000:])

    # -- the crate ------------------------------------------------------------------------------
    def build(self, profile="release"):
        p = sh(["cargo", "build", "--offline", "--profile", profile, "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"),
                "--target-dir", self.target], 600, {"CARGO_NET_OFFLINE": "true"})
        if p.returncode != 0:
            raise Broken("build failed\n" + p.stdout[-4000:])
        return os.path.join(self.target, profile, "conform")

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def locate(self, exe, width):
        """The crate killed the process: which word was it?"""
        lo, hi = 0, 1 << width

        def dies(a, b):
            try:
                return sh([exe, "probe", str(width), str(a), str(b)], 200).returncode < 0
            except subprocess.TimeoutExpired:
                return True
        if width == 32:
            # Eighths in parallel first.
            step = hi // 16
            with ThreadPoolExecutor(8) as ex:
                parts = list(ex.map(lambda i: dies(i * step, (i + 1) * step), range(16)))
            if True not in parts:
                return None
            lo = parts.index(True) * step
            hi = lo + step
        elif not dies(lo, hi):
            return None
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (lo, mid) if dies(lo, mid) else (mid, hi)
        return lo

    def sweep(self, exe, label="sweep", deep=None):
        out = os.path.join(self.work, label + ".json")
        deep = deep or (6 if THOROUGH else 1)
        try:
            p = sh([exe, "sweep", self.export, self.pid, out], 800, {"VERIF_SEED": SEED, "DEEP": deep})
        except subprocess.TimeoutExpired:
            raise Broken("sweep timed out")
        if p.returncode == 3 and os.path.exists(out):
            item = json.load(open(out))["hang"]
            if self.pid in TOTAL:
                self.violation("a call does not return", {"item": hex(item), "phase": label})
                return
            raise Broken("the crate hangs on item %#x" % item)
        if p.returncode < 0:
            if self.pid in TOTAL:
                for width in (16, 32):
                    w = self.locate(exe, width)
                    if w is not None:
                        self.violation("decoding or printing it ends the process", {"width": width, "word": hex(w), "signal": -p.returncode})
                        return
                self.violation("a call ends the process with signal %d" % -p.returncode, {"phase": label, "output": p.stdout[-2000:]})
                return
            raise Broken("sweep died with signal %d" % -p.returncode)
        if p.returncode != 0:
            raise Broken("sweep: exit %d\n%s" % (p.returncode, p.stdout[-3000:]))
        r = json.load(open(out))
        self.cov[label] = {"runs": r["runs"], "accepted": r["counts"][0], "others": r["counts"][1:6], "panics": r["counts"][7], "violations": r["total"]}
        for f in r["finds"]:
            self.violation("%s-bit %s on %s: %s" % (f["width"], f["word"], f["isa"], f["what"]), f)
        self.deviations(r["deviations"])

    def deviations(self, devs):
        with open(os.path.join(HERE, "known_findings.json")) as f:
            listed = {k["deviation"]: k for k in json.load(f)["known"] if k["property"] == self.pid}
        for name, d in sorted(devs.items()):
            if d["count"] == 0:
                continue
            if name in listed:
                self.known.append("%s (%d calls, first word %s)" % (listed[name]["what"], d["count"], d["first"]))
            else:
                self.violation("deviation %s is not a listed finding" % name, d)

    def trace(self, exe):
        deep = 20 if THOROUGH else 4
        jobs = [("trace", ["trace", self.export, self.pid], "Trace", "Trace.cfg")]
        if self.pid == "C11":
            jobs.append(("streams", ["streams", self.export], "TraceStream", "TraceStream.cfg"))
        if self.pid == "C25":
            jobs = [("writers", ["writers", self.export], "TraceWriter", "TraceWriter.cfg")]
        events = episodes = 0
        for name, args, module, cfg in jobs:
            path = os.path.join(self.work, name + ".ndjson")
            try:
                p = sh([exe] + args + [path], 300, {"VERIF_SEED": SEED, "DEEP": deep})
            except subprocess.TimeoutExpired:
                raise Broken("recording timed out")
            if p.returncode != 0:
                raise Broken("recording: exit %d\n%s" % (p.returncode, p.stdout[-2000:]))
            n, ep = map(int, p.stdout.split()[-2:])
            r = self.tlc(name + "-check", module, cfg, {"TRACE": path, "PROPERTY": self.pid}, workers=1, timeout=600)
            if r["code"] == 0 and r["depth"] == n + 1:
                events += n
                episodes += ep
            elif "TraceAccepted" in r["out"] and 0 < r["depth"] <= n:
                lines = open(path).read().splitlines()
                at = r["depth"]
                bad = json.loads(lines[at - 1])
                req = json.loads(lines[bad["inv"] - 1])["req"] if "inv" in bad else None
                self.violation("recorded line %d is not a step of the specification" % at, {"line": at, "event": bad, "request": req, "trace": path})
            else:
                raise Broken("trace validation: TLC says\n" + r["out"][-3000:])
            if not self.cov.get("samples"):
                self.cov["samples"] = [json.loads(x) for x in open(path).read().splitlines()[:4]]
        self.cov["trace_events"] = events
        self.cov["traces_validated_against_impl"] = episodes

    def tables(self, exe):
        """Do tree and listing agree on every word? About the specification, not the crate."""
        out = os.path.join(self.work, "tables.json")
        p = sh([exe, "tables", self.export, out], 600)
        if p.returncode != 0:
            raise Broken("tables: " + p.stdout[-2000:])
        r = json.load(open(out))
        if r["total"]:
            raise Broken("tree and listing differ: %s" % r["finds"][:3])
        self.cov["tree_equals_listing_on"] = sum(r["runs"].values())

    def run(self):
        with ThreadPoolExecutor(3) as ex:
            built = ex.submit(self.build)
            exported = ex.submit(self.do_export)
            exe = built.result()
            exported.result()
        self.models_of()
        self.sweep(exe)
        if not self.violations:
            self.trace(exe)
        if not self.violations:
            if THOROUGH and self.pid in ("C01", "C02", "C05"):
                self.tables(exe)
            if self.pid == "C09" or THOROUGH and self.pid in TOTAL | {"C17"}:
                # The same without overflow checks and debug assertions.
                self.sweep(self.build("plain"), "sweep_plain", 1)

    def evidence(self):
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": sum(m["states"] for m in self.models), "transitions": sum(m["transitions"] for m in self.models),
               "traces_validated_against_impl": 0, "samples": [], "models": self.models}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": ["the listing in spec/Isa.tla transcribes the RISC-V manual correctly",
                              "TLC, CommunityModules and rustc are correct",
                              "counts of words and calls are of this run"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        c.run()
    except Broken as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR property=%s timed out: %s" % (pid, e.cmd[:4]))
        return 2
    c.evidence()
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if c.violations:
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": SEED, "tier": TIER,
                       "how": "build/target/release/conform show build/%s/export WIDTH WORD prints what the crate and the specification say" % pid,
                       "violations": [{"what": w, "detail": r} for w, r in c.violations]}, f, indent=1)
        for w, _ in c.violations[:5]:
            print("  " + w)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("property=%s held: %d model states, %s, %d trace events, %.1f s" % (
        pid, sum(m["states"] for m in c.models), c.cov["sweep"]["runs"], c.cov["trace_events"], time.time() - c.t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never exit 1 by accident
        print("ERROR %r" % (e,))
        sys.exit(2)
