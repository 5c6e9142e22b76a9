#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [quick|thorough]   (or VERIF_TIER; VERIF_SEED in the environment)

Exit 0: it held on everything explored.  Exit 1, with a line VIOLATION: it is broken.  Exit 2: the check itself failed.
The steps of each check (specifications to check with TLC, conformance runs of the real code, histories to validate) are
listed in checks.py.
"""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks  # noqa: E402


class Broken(Exception):
    """The check itself failed"""


class Run:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(os.path.join(self.out, "tmp"))
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.modules = {}
        self.violations = []
        self.assumptions = []
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", TMPDIR=os.path.join(self.out, "tmp"))
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "JAVA_TOOL_OPTIONS", "CARGO_ENCODED_RUSTFLAGS"):
            self.env.pop(k, None)

    def path(self, name):
        return os.path.join(self.out, name)

    def run(self, cmd, timeout, cwd=VERIF, env=None):
        if self.tier == "thorough":
            timeout *= 24
        try:
            return subprocess.run(cmd, cwd=cwd, env=dict(self.env, **(env or {})), capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken(f"timeout: {' '.join(cmd)}")

    def broken(self, what):
        raise Broken(what)

    # --- TLC ---
    def tlc_raw(self, module, cfg=None, env=None, workers=None, timeout=600, extra=()):
        cfg = cfg or module
        meta = self.path(f"tlc-{cfg}")
        tmp = self.path("tmp")
        cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={tmp}", "-cp", TLA, "tlc2.TLC", "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg + ".cfg", "-workers", str(workers or "auto"), *extra, module + ".tla"]
        r = self.run(cmd, timeout, cwd=os.path.join(VERIF, "spec"), env=env)
        text = r.stdout + r.stderr
        with open(self.path(f"tlc-{cfg}.log"), "w") as f:
            f.write(text)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        m = re.search(r"The number of states generated: ([\d,]+)", text)  # simulation
        if m:
            gen = int(m.group(1).replace(",", ""))
        return r.returncode, text, gen, dist

    def tlc(self, module, cfg=None, rows=None, workers=None, timeout=600, consts=None, extra=()):
        """Check a specification; the rows it writes go to <rows or cfg>.ndjson."""
        cfg = cfg or module
        rows = self.path((rows or cfg) + ".ndjson")
        rc, text, gen, dist = self.tlc_raw(module, cfg, {"ROWS": rows, **(consts or {})}, workers, timeout, extra)
        if rc != 0:
            # the specification does not depend on the code: this is an error of the machinery
            raise Broken(f"TLC on {cfg} exited with {rc}\n" + text[-3000:])
        self.states += dist
        self.transitions += gen
        self.modules[cfg] = {"states": dist, "transitions": gen}
        if os.path.exists(rows):
            self.traces += sum(1 for _ in open(rows))

    # --- the real code ---
    def build(self, bin):
        cmd = ["cargo", "build", "--release", "--offline", "--quiet", "--bin", bin, "--target-dir", os.path.join(VERIF, "harness", "target")]
        r = self.run(cmd, 800, cwd=os.path.join(VERIF, "harness"))
        if r.returncode == 0:
            return os.path.join(VERIF, "harness", "target", "release", bin)
        # does the crate itself build?
        probe = self.run(["cargo", "build", "--release", "--offline", "--quiet", "--lib", "--target-dir", os.path.join(VERIF, "harness", "target")], 800,
                         cwd=os.path.join(VERIF, "harness"))
        if probe.returncode != 0:
            raise Broken("the crate does not build:\n" + probe.stderr[-3000:])
        errs = [l for l in r.stderr.splitlines() if l.startswith("error")][:6]
        if re.search(r"could not compile|error(\[E\d+\])?:", r.stderr):
            with open(self.path(f"build-{bin}.log"), "w") as f:
                f.write(r.stderr)
            self.violations.append(f"{bin} does not compile against the crate any more, as part of the API that this property is about is missing "
                                   f"or has another type: {'; '.join(errs)}")
            return None
        raise Broken(f"building {bin} failed:\n" + r.stderr[-3000:])

    def replay(self, bin, args, timeout=850, traces=()):
        """Run a harness program; its violations are those of the code."""
        exe = self.build(bin)
        if exe is None:
            return False
        full = [a.replace("@", self.out + "/") for a in args]
        r = self.run([exe, *full, "--seed", str(self.seed), "--tier", self.tier], timeout)
        if r.returncode < 0 and "has overflowed its stack" in r.stderr:
            self.violations.append("a call overflows the stack: " + r.stderr.strip()[:300])
            return False
        if r.returncode not in (0, 1):
            raise Broken(f"{bin} exited with {r.returncode}: {r.stderr[-2000:]}")
        try:
            res = json.loads(r.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            raise Broken(f"{bin}: no report: {r.stdout[-500:]} {r.stderr[-2000:]}")
        for k, v in res["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for s in res["samples"]:
            if len(self.samples) < 40:
                self.samples.append(s)
        self.violations += res["violations"]
        if any("without returning" in v or "not returned" in v for v in res["violations"]):
            raise Broken("the other steps may not return either")
        return True

    def trace(self, module, file, cfg=None, timeout=600, workers=1, histories=None):
        """Validate a history recorded by a harness program."""
        path = self.path(file)
        if not os.path.exists(path):
            if self.violations:
                return
            raise Broken(f"no history {file}")
        n = sum(1 for _ in open(path))
        if n == 0:
            if self.violations:
                return
            raise Broken(f"empty history {file}")
        rc, text, gen, dist = self.tlc_raw(module, cfg, {"TRACE": path}, workers, timeout)
        self.states += dist
        self.transitions += gen
        self.modules[f"{cfg or module}:{file}"] = {"states": dist, "transitions": gen}
        self.counts["trace_events"] = self.counts.get("trace_events", 0) + n
        self.traces += histories if histories is not None else 1
        if rc == 0:
            return
        m = re.search(r"^<<\s*\"rejected event\"[\s\S]*?^Error", text, re.M)
        if m:
            self.violations.append(f"{module} does not allow the recorded history {file}: " + re.sub(r"\s+", " ", m.group(0))[:1500])
        elif re.search(r"Invariant \w+ is violated|property \w+ is violated|Action property \w+ is violated", text):
            i = text.index(" is violated")
            self.violations.append(f"{module} is violated by the recorded history {file}: {text[max(0, i - 100):i + 1500]}")
        elif re.search(r"Overflow when computing|Attempted to |is not in the domain|outside the domain", text) and "OutOfMemory" not in text and "StackOverflow" not in text:
            # numbers that no value of the specification has
            i = min(m.start() for m in re.finditer(r"Overflow when computing|Attempted to |is not in the domain|outside the domain", text))
            self.violations.append(f"{module} has no transition for the recorded history {file}, at event {dist}: " + re.sub(r"\s+", " ", text[max(0, i - 60):i + 300]))
        else:
            raise Broken(f"TLC on {module} exited with {rc}\n" + text[-3000:])


def known(pid):
    """The findings that are recorded rather than repaired: finding: property=<id> match=<text> | <what fails>"""
    found = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*?) \| (.*)", line)
            if m and m.group(1) == pid:
                found.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return found


def main():
    pid = sys.argv[1]
    spec = checks.CHECKS[pid]
    t0 = time.time()
    run = Run(pid, sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        spec["steps"](run)
    except Broken as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        # a violation that was found before is one all the same
        if not run.violations:
            return 2
    for _, what in known(pid):
        print(f"KNOWN-FINDING: property={pid} {what}")
    viol = [v for v in run.violations if not any(m in v for m, _ in known(pid))]
    ev = {
        "property": pid, "tier": run.tier, "seed": run.seed, "level": spec["level"],
        "coverage": {
            "states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
            "samples": run.samples or ["(none)"], "specifications": run.modules, "conformance": run.counts,
            "rule": spec.get("rule", ""),
        },
        "assumptions": checks.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        replay = run.path("violation.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "tier": run.tier, "seed": run.seed, "rerun": f"VERIF_SEED={run.seed} python3 check.py {pid} {run.tier}",
                       "violations": viol}, f, indent=1)
            f.write("\n")
        for v in viol[:5]:
            print("  " + v[:600])
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    c = ", ".join(f"{k} {v}" for k, v in sorted(run.counts.items()))
    print(f"OK property={pid} states {run.states}, rows and histories {run.traces}, {c} ({ev['wall_s']} s)")
    shutil.rmtree(run.path("tmp"), ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
