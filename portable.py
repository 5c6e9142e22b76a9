"""C39: runs the program portable on platforms and in builds that differ, and records the digests it prints."""
import json, os, re, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
# targets of Miri, which interprets the program for them: width of usize, order of bytes
TARGETS = {"powerpc-unknown-linux-gnu": (32, "big"), "s390x-unknown-linux-gnu": (64, "big"), "thumbv7em-none-eabihf": (32, "little")}
SHARDS = 3
# builds for this machine: profile, flags, are overflow and debug assertions checked
BUILDS = {
    "optimized": ("release", "", False),
    "checked": ("checked", "", True),
    "not optimized": ("dev", "", True),
    "for size": ("small", "", False),
    "with all instructions of the processor": ("release", "-C target-cpu=native", False),
}


def rows(run, name):
    """The bit patterns of the specification, those to be tried in pairs first"""
    r = [json.loads(l) for l in open(run.path(name))]
    r.sort(key=lambda x: (not x["pair"], x["e"], x["m"], x["s"]))
    words = [x["s"] << 31 | x["e"] << 23 | x["m"] for x in r]
    path = run.path("rows.bin")
    with open(path, "wb") as f:
        f.write(b"".join(struct.pack("<I", w) for w in words))
    return path, sum(x["pair"] for x in r), words


def parse(text):
    ops, panic = {}, None
    for line in text.splitlines():
        if line.startswith("panic "):
            panic = line
        elif "\t" in line:
            op, d = line.split("\t")
            ops[op] = [int(x) for x in d.split()]
    return ops, panic


def last(text):
    """the function that was running"""
    lines = [l for l in text.splitlines() if "\t" in l]
    return lines[-1].split("\t")[0] if lines else "the first function"


class Job:
    def __init__(self, run, env):
        self.run, self.env, self.crate = run, env, os.path.join(VERIF, "portable")

    def failed(self, where, r):
        err = r.stdout + r.stderr
        e = re.findall(r"error.*", r.stderr)
        if "could not compile `micromath`" in r.stderr:
            self.run.violations.append(f"the crate does not build {where}: " + "; ".join(e)[:600])
        elif "could not compile `portable`" in r.stderr:
            self.run.violations.append(f"functions of the crate are missing or have another type {where}: " + "; ".join(e)[:600])
        else:
            self.run.broken(f"portable {where}: " + err[-2500:])

    def native(self, name, stride):
        profile, flags, checked = BUILDS[name]
        target = os.path.join(self.crate, "target", "native" if flags else "host")
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", target]
        r = self.run.run(cmd, 400, cwd=self.crate, env=dict(self.env, RUSTFLAGS=flags))
        if r.returncode != 0:
            self.failed(f"({name})", r)
            return None
        exe = os.path.join(target, "debug" if profile == "dev" else profile, "portable")
        ops = {}
        for args in ([], [str(stride)]):
            r = self.run.run([exe, *args], 700)
            if r.returncode != 0 or "\npanic " in r.stdout:
                self.run.violations.append(f"{last(r.stdout)} panics in a build {name}: {parse(r.stdout)[1] or r.stderr[-300:]}")
                return None
            ops.update(parse(r.stdout)[0])
        return {"name": name, "order": "little", "width": 64, "checked": checked, "native": True}, ops

    def miri(self, target, pool):
        """Builds a library of the target and interprets the program"""
        cache = self.run.path("miri-" + target)
        env = dict(self.env, XDG_CACHE_HOME=cache, MIRI_NO_STD="1", MIRIFLAGS="-Zmiri-deterministic-floats", RUSTFLAGS="")
        r = self.run.run(["cargo", "+nightly", "miri", "setup", "--target", target], 500, cwd=self.crate, env=env)
        if r.returncode != 0:
            self.run.broken(f"miri setup for {target}: " + r.stderr[-2500:])

        def shard(n):
            return self.run.run(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", target, "--target-dir", f"{cache}/target{n}"], 700,
                                cwd=self.crate, env=dict(env, SHARD=f"{n}/{SHARDS}"))

        ops = {}
        for r in pool.map(shard, range(SHARDS)):
            got, panic = parse(r.stdout)
            if panic:
                self.run.violations.append(f"{last(r.stdout)} panics on {target}: {panic}")
                return None
            if r.returncode != 0:
                if "Undefined Behavior" in r.stderr:
                    self.run.violations.append(f"{last(r.stdout)} has undefined behaviour on {target}: " + " ".join(re.findall(r"error.*", r.stderr))[:600])
                else:
                    self.failed(f"on {target}", r)
                return None
            ops.update(got)
        width, order = TARGETS[target]
        want = f"{width} {order}"
        if ops.pop("platform " + want, None) is None:
            self.run.broken(f"{target} is not {want}")
        return {"name": target, "order": order, "width": width, "checked": True, "native": False}, ops


def compare(run, name):
    """The name of the history"""
    path, pairs, words = rows(run, name)
    job = Job(run, {"ROWS": path, "PAIRS": str(pairs), "CARGO_NET_OFFLINE": "true"})
    probe = subprocess.run(["cargo", "build", "--offline", "--quiet", "--lib", "--manifest-path", "/repo/Cargo.toml", "--target-dir", os.path.join(job.crate, "target", "lib")],
                           env=run.env, capture_output=True, text=True)
    if probe.returncode != 0:
        run.broken("the crate does not build:\n" + probe.stderr[-3000:])
    stride = 0 if run.tier == "thorough" else 9
    with ThreadPoolExecutor(len(TARGETS) * (SHARDS + 1) + 1) as pool:
        jobs = [pool.submit(job.miri, t, pool) for t in TARGETS]
        results = [job.native(n, stride) for n in BUILDS]
        results += [j.result() for j in jobs]
    results = [r for r in results if r]
    if run.violations:
        return None
    deep = sorted(op for op in results[0][1] if op.endswith(", all"))
    history = "platforms.ndjson"
    with open(run.path(history), "w") as f:
        for platform, ops in results:
            ops = {op: d for op, d in ops.items() if not op.startswith("platform ")}
            f.write(json.dumps({"e": "begin", "platform": platform}) + "\n")
            for op, d in ops.items():
                f.write(json.dumps({"e": "report", "op": op, "deep": op.endswith(", all"), "digests": d}) + "\n")
            f.write(json.dumps({"e": "end", "skips": deep}) + "\n")
            run.counts["functions"] = max(run.counts.get("functions", 0), len(ops))
            run.counts["digests"] = run.counts.get("digests", 0) + sum(map(len, ops.values()))
            run.samples.append(f"{platform['name']}: {len(ops)} functions")
    run.counts["platforms"] = len(results)
    run.counts["numbers"] = len(words)
    run.counts["numbers, natively"] = 2 ** (32 - stride)
    return history, results, words


def explain(run, results, words):
    """Which results differ, in words"""
    first, ops = results[0]
    for platform, other in results[1:]:
        for op, d in other.items():
            if op.startswith("platform ") or ops.get(op) == d:
                continue
            k = next((k for k in range(max(len(d), len(ops.get(op, [])))) if d[k:k + 1] != ops.get(op, [])[k:k + 1]), 0)
            if op.endswith(", all"):
                where = f"on numbers with the bits {k:#x} << 23"
            elif len(d) == (len(words) + 15) // 16:
                where = "on one of the bit patterns " + " ".join(f"{w:#x}" for w in words[16 * k:16 * k + 16])
            else:
                where = f"in group {k}" + (f" (first number {words[k]:#x})" if k < len(words) else "")
            run.violations.append(f"{op}: the results of the build {platform['name']} differ from those of {first['name']} {where}")
            break
