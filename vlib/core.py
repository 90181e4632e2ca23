"""Common machinery of the checks: build Ariadne from /repo, run TLC, record traces of the real code,
validate them against the specification, and report."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
SRC = os.path.join(BUILD, "src")          # mirror of /repo/source, by content
OUT = os.path.join(BUILD, "ninja")
CLASSES = os.path.join(BUILD, "classes")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not decide (build failure, model failure): exit 2."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- build
def _mirror():
    """Copy /repo/source into the build tree, touching only files whose content changed."""
    want = {}
    top = os.path.join(REPO, "source")
    for d, dirs, files in os.walk(top):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), top)
            if rel == "config.hpp":      # generated by the repository's own build; ours is in stubs
                continue
            want[rel] = os.path.join(d, f)
    dst = os.path.join(SRC, "source")
    for d, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want:
                os.unlink(os.path.join(d, f))
    for rel, p in want.items():
        q = os.path.join(dst, rel)
        data = open(p, "rb").read()
        if os.path.exists(q) and open(q, "rb").read() == data:
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as h:
            h.write(data)


def _own_mirror():
    """The harness and stubs, by content as well (a copied sandbox may change time stamps)."""
    for sub in ("harness", "stubs"):
        want = set()
        for d, dirs, files in os.walk(os.path.join(VERIF, sub)):
            for f in files:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, VERIF)
                want.add(rel)
                q = os.path.join(SRC, rel)
                data = open(p, "rb").read()
                if os.path.exists(q) and open(q, "rb").read() == data:
                    continue
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as h:
                    h.write(data)
        for d, dirs, files in os.walk(os.path.join(SRC, sub)):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if rel not in want:
                    os.unlink(os.path.join(d, f))


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _mirror()
        _own_mirror()
        env = dict(os.environ, CCACHE_DISABLE="1")
        if not os.path.exists(os.path.join(OUT, "build.ninja")):
            r = subprocess.run(["cmake", "-S", os.path.join(SRC, "harness"), "-B", OUT, "-G", "Ninja", "-DREPO=" + SRC],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", OUT] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", env=env)
        if r.returncode:
            lines = [x for x in r.stdout.splitlines() if "error" in x.lower() or "FAILED" in x or "undefined" in x]
            raise CheckError("build failed:\n" + "\n".join(lines[:30]) + "\n" + r.stdout[-1500:])
        _classes()
    log("[build] %s in %.1fs" % (" ".join(targets), time.time() - t0))


def _classes():
    src = os.path.join(VERIF, "spec", "lib", "Rat.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = os.path.join(CLASSES, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLAJARS, "-d", CLASSES, src], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("javac failed:\n" + r.stdout)
    with open(stamp, "w") as f:
        f.write(h)


# ------------------------------------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out or \
            (rc == 0 and "Finished in" in out and "Error:" not in out)


def tlc(module, cfg=None, work=None, env=None, workers=1, heap="1500m", timeout=600, extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>; all of the spec directories are searched."""
    spec = os.path.join(VERIF, "spec")
    work = work or os.path.join(BUILD, "tlc", module + "-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "states-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    path = None
    for d, _, files in os.walk(spec):
        if module + ".tla" in files:
            path = d
    if path is None:
        raise CheckError("no module " + module)
    libs = ":".join(sorted({d for d, _, f in os.walk(spec)}))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Djava.io.tmpdir=" + work, "-Xmx" + heap, "-DTLA-Library=" + libs,
           "-cp", CLASSES + ":" + TLAJARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(path, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(path, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=e, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout)


# ------------------------------------------------------------------------------------------------ run
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replay_dir = os.path.join(VERIF, "replay", prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.by_kind = [], [], {}
        self.violations, self.known_hits = [], {}
        self.distinct = set()
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]

    def quick(self):
        return self.tier != "thorough"

    def scale(self, quick, thorough):
        return quick if self.quick() else thorough

    # -- design model
    def model(self, module, cfg=None, workers=NCPU, timeout=600, heap="4g", extra=()):
        t = time.time()
        r = tlc(module, cfg, work=os.path.join(self.work, "mc-" + (cfg or module)), workers=workers, timeout=timeout, heap=heap, extra=extra)
        if not r.ok:
            raise CheckError("TLC rejected the design model %s (%s):\n%s" % (module, cfg, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg or module, "distinct_states": r.distinct, "states_generated": r.generated,
                            "wall_s": round(time.time() - t, 1)})
        log("[model] %s: %d distinct states, %d generated, %.1fs" % (cfg or module, r.distinct, r.generated, time.time() - t))
        return r

    # -- recorded behaviour of the code
    def _drive(self, driver, args, out, timeout, env=None):
        cmd = [os.path.join(OUT, driver)] + [str(a) for a in args] + ["--out", out]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                               cwd=self.work, env=dict(os.environ, **(env or {})))
            return r.returncode, r.stderr[-2000:], cmd
        except subprocess.TimeoutExpired:
            return -999, "no answer within %d s" % timeout, cmd

    def _validate(self, module, cfg, trace, tag, timeout):
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError("empty trace " + trace)
        r = tlc(module, cfg, work=os.path.join(self.work, "tv-" + tag), env={"TRACE": trace}, workers=1, timeout=timeout, heap="2500m")
        bad = []
        for m in re.finditer(r'<<"BAD", (\d+), (.*?)>>\s*$', r.out, re.M):
            bad.append((int(m.group(1)), m.group(2)))
        done = re.search(r'<<"CONSUMED", (\d+)>>', r.out)
        if not r.ok or not done or int(done.group(1)) != n:
            raise CheckError("TLC could not process the trace %s with %s (%s of %d events):\n%s" % (trace, module, done and done.group(1), n, r.out[-3000:]))
        return n, sorted(set(bad)), r

    def conform(self, driver, module, n, shards=NCPU, mode="", cfg=None, timeout=600, extra=(), key=None, indata=None, drive_timeout=None):
        """Run the driver `shards` times with different seeds, validate every recorded trace with TLC."""
        t = time.time()
        dt = drive_timeout or int(os.environ.get("VERIF_DT","0")) or self.scale(60, 600)

        def one(k):
            tag = "%s-%s-%d" % (driver, mode or "x", k)
            tr = os.path.join(self.work, tag + ".ndjson")
            args = ["--seed", self.seed * 1000 + k, "--n", max(1, n // shards)] + (["--mode", mode] if mode else []) + list(extra)
            if indata:
                args += ["--in", indata if isinstance(indata, str) else indata[k]]
            rc, err, cmd = self._drive(driver, args, tr, dt)
            if rc != 0:      # crash or hang of the code under test: must repeat
                rc2, err2, cmd = self._drive(driver, args, tr + ".2", dt)
                if rc2 == 0:
                    raise CheckError("driver failed once (%s: %s) but not when repeated" % (rc, err))
                if rc2 in (2, 127):
                    raise CheckError("driver error: " + err2)
                why = "the code under test did not terminate" if rc2 == -999 else "the code under test crashed (status %d): %s" % (rc2, err2[-300:])
                last = ""
                try:
                    for last in open(tr + ".2", errors="replace"):
                        pass
                except OSError:
                    pass
                return tag, tr, 0, [(0, why)], cmd, None, last
            cnt, bad, r = self._validate(module, cfg, tr, tag, timeout)
            if bad:          # confirm on a second, independent recording
                rc, err, cmd = self._drive(driver, args, tr + ".2", dt)
                if rc != 0:
                    raise CheckError("driver not reproducible: " + err)
                cnt2, bad2, r2 = self._validate(module, cfg, tr + ".2", tag + "-again", timeout)
                if [b[1] for b in bad] != [b[1] for b in bad2]:
                    common = {b[1] for b in bad} & {b[1] for b in bad2}
                    bad = [b for b in bad if b[1] in common]
                    if not bad:
                        raise CheckError("rejection of %s not reproducible" % tag)
            return tag, tr, cnt, bad, cmd, r, ""

        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            results = list(ex.map(one, range(shards)))
        total = 0
        for tag, tr, cnt, bad, cmd, r, last in results:
            total += cnt
            self.traces += 1
            self.events += cnt
            if r:
                self.states += r.distinct
                self.transitions += r.generated
            lines = None
            for i, why in bad:
                if lines is None and cnt:
                    lines = open(tr).read().splitlines()
                ev = json.loads(lines[i - 1]) if cnt else {"ev": "crash", "driver": driver, "mode": mode, "last": last[:500]}
                self._rejected(ev, why, cmd, module, i, tr)
            if cnt:
                self._collect(tr)
            if not bad and os.path.exists(tr):
                os.unlink(tr)
        log("[conform] %s %s against %s: %d events in %d traces, %.1fs" % (driver, mode, module, total, shards, time.time() - t))

    def _collect(self, tr):
        with open(tr) as f:
            for i, line in enumerate(f):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                k = d.get("ev", "?") + ("/" + str(d["f"]) if "f" in d else "")
                self.by_kind[k] = self.by_kind.get(k, 0) + 1
                self.distinct.add(hash(line))
                if self.by_kind[k] == 1 and len(self.samples) < 12:
                    self.samples.append(line.strip()[:600])

    def _rejected(self, ev, why, cmd, module, i, tr):
        for k in self.known:
            if all(match(ev.get(f), v) for f, v in k["match"].items()):
                self.known_hits.setdefault(k["what"], 0)
                self.known_hits[k["what"]] += 1
                return
        self.violations.append({"event": ev, "why": why, "driver_cmd": cmd, "spec": module, "line": i})

    # -- the end
    def finish(self, level="model_checking", assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events_validated": self.events, "distinct_events": len(self.distinct), "events_by_kind": dict(sorted(self.by_kind.items())),
               "design_models": self.models, "samples": self.samples[:12] or ["(model only)"],
               "known_findings_seen": self.known_hits}
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, n in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            p = os.path.join(self.replay_dir, "violation.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "count": len(self.violations),
                           "violations": self.violations[:40]}, f, indent=1)
            for v in self.violations[:5]:
                log("REJECTED", v["why"], json.dumps(v["event"])[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" %
              (self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 0


def match(x, v):
    return x in v if isinstance(v, list) and not isinstance(x, list) else x == v


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []
