#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [quick|thorough]

Builds the monitors in harness/ against the working tree of /repo, runs their workloads in child processes, judges
what they observed, and writes evidence/<property>.json. See DESIGN.md.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "driver"))
STABLE = "stable-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"


class CheckError(Exception):
    """The check could not be carried out; nothing is said about the property."""


class Run:
    """One run of a check: what to do it with, and what it has seen."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.started = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"mon-{prop}-")
        os.chmod(self.scratch, 0o755)
        self.counts, self.distinct, self.samples, self.notes, self.violations = {}, {}, [], [], []
        self.lock = threading.Lock()
        self.builds = {}

    quick = property(lambda self: self.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    def dir(self, *names):
        p = os.path.join(self.scratch, *names)
        os.makedirs(p, exist_ok=True)
        return p

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, k, v):
        with self.lock:
            self.distinct.setdefault(k, set()).add(v)

    def eval(self, key=None):
        self.count("evaluations")
        if key is not None:
            self.seen("nontrivial", int(hashlib.sha1(repr(key).encode()).hexdigest()[:15], 16))

    def violation(self, key, detail):
        with self.lock:
            self.violations.append({"key": key, "detail": detail})

    def merge(self, rep):
        with self.lock:
            for k, n in rep["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + n
            for k, v in rep["distinct"].items():
                self.distinct.setdefault(k, set()).update(v)
            self.samples += rep["samples"][: max(0, 6 - len(self.samples))]
            self.notes += [n for n in rep["notes"] if n not in self.notes]
            self.violations += rep["violations"]

    # -- building ---------------------------------------------------------------------------------------------

    def cargo(self, kind, args, env=None, cwd=HARNESS, timeout=800):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=STABLE)
        e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target-" + kind)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            e.pop(k, None)
        e.update(env or {})
        t = time.time()
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        if p.returncode:
            raise CheckError(f"build {kind} failed:\n" + p.stdout[-4000:])
        self.notes.append(f"build {kind}: {time.time() - t:.0f} s")
        return e["CARGO_TARGET_DIR"]

    def build(self, kind):
        """The monitor binary of a kind: rel (optimized, overflow and debug checks), tsan, asan."""
        if kind in self.builds:
            return self.builds[kind]
        if kind == "rel":
            d = self.cargo(kind, ["build", "--release", "--offline", "-q"])
            b = os.path.join(d, "release", "mon")
        else:
            san = {"tsan": "thread", "asan": "address"}[kind]
            d = self.cargo(kind, ["build", "--release", "--offline", "-q", "-Zbuild-std", "--target", TARGET],
                           {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": f"-Zsanitizer={san} --cfg san"})
            b = os.path.join(d, TARGET, "release", "mon")
        self.builds[kind] = b
        return b

    def native(self, kind):
        """The shared library of the native interface, as its own build makes it or under AddressSanitizer."""
        manifest = ["--manifest-path", os.path.join(REPO, "bindings/native/Cargo.toml")]
        if kind == "rel":
            d = os.path.join(self.cargo("native", ["build", "--release", "--offline", "-q", *manifest]), "release")
        else:
            # Without -fPIC and with its own choice of -fPIE, libsodium can not be linked into a shared library.
            d = self.cargo("native-asan", ["build", "--release", "--offline", "-q", "-Zbuild-std", "--target", TARGET, *manifest],
                           {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=address", "CFLAGS": "-fPIC",
                            "SODIUM_DISABLE_PIE": "1"})
            d = os.path.join(d, TARGET, "release")
        return os.path.join(d, "libstronghold_native.so")

    def cc(self, name, src, flags=()):
        out = os.path.join(self.dir("bin"), name)
        p = subprocess.run(["gcc", "-O1", "-g", "-Wall", "-o", out, os.path.join(VERIF, "driver", src), *flags],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError(f"cannot compile {src}:\n{p.stdout}")
        return out

    # -- running ----------------------------------------------------------------------------------------------

    def env(self, home, extra=None):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LD_LIBRARY_PATH", "MON_VERBOSE")}
        for k in ("HOME", "XDG_DATA_HOME", "STRONGHOLD", "TMPDIR"):
            e[k] = os.path.join(home, k.lower())
            os.makedirs(e[k], exist_ok=True)
        e.update(extra or {})
        return e

    def exec(self, argv, home, extra=None, timeout=60, cwd=None):
        """Runs a command; returns (exit code or -signal or None on timeout, stdout, stderr)."""
        so, se = os.path.join(home, "stdout"), os.path.join(home, "stderr")
        with open(so, "wb") as o, open(se, "wb") as e:
            p = subprocess.Popen(argv, env=self.env(home, extra), stdout=o, stderr=e, stdin=subprocess.DEVNULL,
                                 cwd=cwd or home, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        rd = lambda f: open(f, "rb").read().decode(errors="replace")
        return rc, rd(so), rd(se)

    def mon(self, job, args=(), kind="rel", budget=60, shards=1, extra=None, slack=150, repeat=0, prefix=None,
            program=None):
        """Runs a workload of the monitor binary, or another program, spread over `shards` processes."""
        program = program or [self.build(kind), job, *args]
        results = [None] * shards

        def one(k):
            home = self.dir(f"{job}-{kind}-{'-'.join(args)}-{repeat}-{k}")
            out = os.path.join(home, "report.json")
            argv = [*program, "--seed", str(self.seed + 1000003 * repeat), "--tier", self.tier, "--scratch",
                    self.dir(f"{job}-{kind}-{'-'.join(args)}-{repeat}-{k}", "w"), "--out", out, "--budget", str(budget),
                    "--shard", f"{k}/{shards}"]
            rc, so, se = self.exec(argv, home, extra, timeout=budget + slack)
            where = {"job": job, "args": list(args), "build": kind, "shard": f"{k}/{shards}", "command": argv,
                     "stderr": se[-6000:]}
            rep = None
            if os.path.exists(out):
                try:
                    rep = json.load(open(out))
                except ValueError:
                    pass
            if rep:
                for v in rep["violations"]:
                    v["where"] = {k: where[k] for k in ("job", "args", "build", "shard", "command")}
                self.merge(rep)
            p = (prefix or job) + "/"
            if rc is None:
                self.violation(p + "hang", dict(where, what=f"not finished {slack} s after its budget of {budget} s"))
            elif rc == -signal.SIGKILL:
                raise CheckError(f"{job}: killed, most likely for its use of memory")
            elif rc < 0 or rc in (134, 139):
                self.violation(p + "crash", dict(where, what=f"ended by signal {-rc}"))
            elif rc in (66, 67):
                self.violation(p + "sanitizer", dict(where, what="the sanitizer reported an error"))
            elif rc != 0 or rep is None:
                raise CheckError(f"{job}: exit code {rc}\n{se[-3000:]}")
            results[k] = (rc, se)
            shutil.rmtree(home, ignore_errors=True)

        errs = []

        def guarded(k):
            try:
                one(k)
            except Exception as e:
                errs.append(e)

        ts = [threading.Thread(target=guarded, args=(k,)) for k in range(shards)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return results


def known_findings(prop):
    """(key, text) of the findings listed for a property: lines `finding: property=<id> key=<key> <text>`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            f = line.split(None, 3)
            if len(f) == 4 and f[0] == "finding:" and f[1] == f"property={prop}" and f[2].startswith("key="):
                out.append((f[2][4:], f[3].strip()))
    return out


def main():
    from props import PROPS

    prop = sys.argv[1]
    if prop == "--setup":
        # Every check builds what it needs itself; this only tells early if it can not.
        run = Run("setup", "quick", 1)
        run.build("rel")
        shutil.rmtree(run.scratch, ignore_errors=True)
        print("ok")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    run = Run(prop, tier, seed)
    try:
        spec["run"](run)
        if not run.counts.get("evaluations") and not run.violations:
            raise CheckError("nothing was evaluated")
        code = report(run, spec)
    except (CheckError, subprocess.TimeoutExpired) as e:
        print(f"ERROR property={prop}: {e}")
        code = report(run, spec) if run.violations else 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", run.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(run.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def report(run, spec):
    known = known_findings(run.prop)
    found, new = set(), []
    for v in run.violations:
        k = next((k for k in known if v["key"] == k[0]), None)
        if k:
            found.add(k)
        else:
            new.append(v)
    for k, text in sorted(found):
        print(f"KNOWN-FINDING: property={run.prop} {text}")
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    if new:
        path = os.path.join(ev, "replay", f"{run.prop}-{run.tier}-{run.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": run.prop, "seed": run.seed, "tier": run.tier, "violations": new[:40],
                       "replay": f"VERIF_SEED={run.seed} python3 run.py {run.prop} {run.tier}"}, f, indent=1)
        for v in new[:5]:
            print(f"  {v['key']}: {json.dumps(v['detail'])[:600]}")
        print(f"VIOLATION property={run.prop} replay={os.path.relpath(path, VERIF)}")
    observed = {k: v for k, v in sorted(run.counts.items()) if k != "evaluations"}
    distinct = {k: len(v) for k, v in sorted(run.distinct.items()) if k != "nontrivial"}
    e = {
        "property": run.prop, "tier": run.tier, "seed": run.seed, "level": spec["level"],
        "coverage": {
            "evaluations": run.counts.get("evaluations", 0),
            "distinct_nontrivial": len(run.distinct.get("nontrivial", ())),
            "rule": spec["rule"],
            "samples": run.samples[:6] or ["none"],
            "observed": observed,
            "distinct_observed": distinct,
            "notes": run.notes,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - run.started, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev, run.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
    print(f"{run.prop} {run.tier}: {e['coverage']['evaluations']} evaluations, "
          f"{e['coverage']['distinct_nontrivial']} distinct, {len(new)} violations, {e['wall_s']} s")
    return 1 if new else 0


if __name__ == "__main__":
    main()
