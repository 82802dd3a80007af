"""Common machinery of the checks: environment, TLC runs, evidence, verdict lines."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
SRC = "/repo/src"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = max(2, min(8, os.cpu_count() or 2))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXREPORT = 5


def thorough():
    return TIER == "thorough"


def cps(s):
    return [ord(c) for c in s]


def text(l):
    return "".join(map(chr, l))


class MachineryError(Exception):
    """The check itself could not run: never a verdict."""


class TlcResult:
    def __init__(self):
        self.lines = []
        self.states = 0
        self.generated = 0
        self.initial = 0
        self.ok = False
        self.out = ""
        self.violated = None


class Ctx:
    """One check run of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.models = []
        self.assumptions = []
        self.fails = {}
        self.nfails = 0
        self.per = {}

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, simulate=None, timeout=850, workers=None, heap="6g", count=True, extra=()):
        r = TlcResult()
        md = tempfile.mkdtemp(prefix="md-", dir=self.tmp)
        out = os.path.join(md, "out.txt")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or WORKERS), "-metadir", md, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC on {module} exceeded {timeout} s")
        rest = []
        with open(out) as f:
            for line in f:
                if line.startswith('"@@'):
                    r.lines.append(json.loads(json.loads(line)[2:]))
                else:
                    rest.append(line)
        r.out = "".join(rest)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
        if m:
            r.generated, r.states = (int(x.replace(",", "")) for x in m.groups())
        m = re.search(r"The number of states generated: ([\d,]+)", r.out)
        if m and not r.generated:
            r.generated = r.states = int(m.group(1).replace(",", ""))
        m = re.search(r"([\d,]+) distinct states? generated at", r.out)
        if m:
            r.initial = int(m.group(1).replace(",", ""))
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|(POSTCONDITION\S*.*) (?:is )?violated", r.out)
        if m:
            r.violated = m.group(0)
        r.ok = rc == 0 and not r.violated
        shutil.rmtree(md, ignore_errors=True)
        if count:
            self.states += r.states
            self.transitions += max(0, r.generated - r.initial)
            self.models.append({"module": module, "states": r.states, "generated": r.generated, "seconds": round(time.time() - t, 1)})
        if not r.ok:
            raise MachineryError(f"TLC on {module} did not finish cleanly (exit {rc}): {r.violated or ''}\n" + r.out[-3000:])
        return r

    # ---- verdict -----------------------------------------------------------
    def fail(self, what, case, key=None):
        """Record a violation. case: JSON-able replay data. Kept: the smallest case per kind."""
        self.nfails += 1
        k = key or what
        self.per[k] = self.per.get(k, 0) + 1
        size = len(json.dumps(case))
        if k not in self.fails or size < self.fails[k][0]:
            self.fails[k] = (size, what, case)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        known = load_known()
        ev = {
            "property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
            "coverage": dict({"states": self.states, "transitions": self.transitions,
                              "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"],
                              "tlc_runs": self.models}, **self.cov),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": sum(n for k, n in self.per.items() if (self.prop, k) not in known),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        n = 0
        for k, (_, what, case) in sorted(self.fails.items(), key=lambda x: x[1][0]):
            if (self.prop, k) in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[(self.prop, k)]}")
                continue
            rc = 1
            n += 1
            if n > MAXREPORT:
                continue
            d = os.path.join(ROOT, "replay")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha1(json.dumps([k, case]).encode()).hexdigest()[:10]
            path = os.path.join(d, f"{self.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "case": case}, f, indent=1)
            print(f"# {what}: {json.dumps(case)[:600]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        print(f"{self.prop}: {'violated' if rc else 'held'}; {self.nfails} mismatches; states={self.states} transitions={self.transitions} "
              f"replayed={self.traces} in {time.time() - self.t0:.1f}s")
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def load_known():
    """known findings: lines `finding: property=<id> key=<key> <text>` in KNOWN_FINDINGS (fixed: lines suppress nothing)."""
    r = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r
