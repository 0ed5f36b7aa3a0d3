"""Shared machinery of the checks: building drivers from /repo's working tree,
running TLC, judging traces, writing evidence and reporting violations.

Verdicts: a violation is only ever reported from what the real code did (a
recorded trace the specification rejects, or a crash of the code under test).
Everything else that goes wrong (specification error, driver failure, time-out
of the machinery) ends the check with exit status 2."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not do its work."""


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.states = 0          # distinct states of the specification explored
        self.transitions = 0     # transitions of the specification explored
        self.traces = 0          # executions of the real code judged by TLC
        self.events = 0          # recorded events judged by TLC
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.exhaustive = None
        self._built = {}

    # ------------------------------------------------------------ processes
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def env(self, extra=None):
        e = dict(os.environ)
        e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
                 GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
                 PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        e.pop("INFLUXDB_USER", None)
        e.pop("INFLUXDB_PASS", None)
        if extra:
            e.update({k: str(v) for k, v in extra.items()})
        return e

    def sh(self, cmd, timeout, cwd=None, env=None, ok_codes=None):
        """Run a command; returns (rc, output). rc is None on time-out."""
        p = subprocess.Popen(cmd, cwd=cwd or self.work, env=env or self.env(),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, _ = p.communicate()
            rc = None
        return rc, out.decode("utf-8", "replace")

    # ---------------------------------------------------------------- build
    def hasty(self):
        """Files go.mod and go.sum with a NATS client that waits 20 ms, not
        2 s, between its attempts to reconnect: a short outage is as many
        attempts as a long one."""
        rc, o = self.sh(["go", "list", "-f", "{{.Dir}}", "github.com/nats-io/nats.go"], 120, cwd=REPO)
        src = [x for x in o.splitlines() if os.path.isdir(x)]
        if rc != 0 or not src:
            raise Broken("the NATS client was not found:\n" + o[-2000:])
        d = self.path("nats.go")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src[0], d, ignore=shutil.ignore_patterns("*_test.go", "test", "examples"))
        for f in [d] + [os.path.join(d, f) for f in os.listdir(d)]:
            os.chmod(f, 0o755 if os.path.isdir(f) else 0o644)
        f = os.path.join(d, "nats.go")
        t, n = re.subn(r"(?m)^(\tDefaultReconnectWait +=) .*", r"\1 20 * time.Millisecond", open(f).read())
        t, k = re.subn(r"(?m)^(\tDefaultReconnectJitter +=) .*", r"\1 time.Millisecond", t)
        if n != 1 or k != 1:
            raise Broken("the NATS client looks different")
        open(f, "w").write(t)
        mod = self.path("hasty.mod")
        open(mod, "w").write(open(REPO + "/go.mod").read() + "\nreplace github.com/nats-io/nats.go => %s\n" % d)
        shutil.copy(REPO + "/go.sum", self.path("hasty.sum"))
        return mod

    def build(self, race=False, hasty=False):
        """The driver: a program inside the module, added by an overlay."""
        key = "driver-race" if race else "driver-hasty" if hasty else "driver"
        if key in self._built:
            return self._built[key]
        d = os.path.join(VERIF, "driver")
        repl = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                repl["%s/zzverif/%s" % (REPO, f)] = os.path.join(d, f)
        ov = self.path("overlay-driver.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        out = self.path(key)
        cmd = ["go", "build", "-overlay", ov, "-o", out]
        if race:
            cmd.insert(2, "-race")
        if hasty:
            cmd.insert(2, "-modfile=" + self.hasty())
        rc, o = self.sh(cmd + ["./zzverif"], 600, cwd=REPO)
        if rc != 0:
            raise Broken("building the driver failed:\n" + o[-4000:])
        self._built[key] = out
        return out

    def build_inpkg(self, pkg):
        """A test binary of pkg with our in-package driver, by an overlay."""
        key = "inpkg-" + pkg
        if key in self._built:
            return self._built[key]
        src = os.path.join(VERIF, "inpkg", pkg + "_verif_test.go")
        ov = self.path("overlay-%s.json" % pkg)
        json.dump({"Replace": {"%s/%s/zz_verif_test.go" % (REPO, pkg): src}}, open(ov, "w"))
        out = self.path(key)
        rc, o = self.sh(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "./" + pkg], 600, cwd=REPO)
        if rc != 0:
            raise Broken("building the %s driver failed:\n%s" % (pkg, o[-4000:]))
        self._built[key] = out
        return out

    def build_bin(self, cmd):
        key = "bin-" + cmd
        if key in self._built:
            return self._built[key]
        out = self.path(key)
        rc, o = self.sh(["go", "build", "-o", out, "./cmd/" + cmd], 600, cwd=REPO)
        if rc != 0:
            raise Broken("building %s failed:\n%s" % (cmd, o[-4000:]))
        self._built[key] = out
        return out

    def drive(self, args, timeout=300, race=False, env=None, hasty=False):
        """Run the driver. A crash of the code under test is a violation."""
        b = self.build(race, hasty)
        limit = [] if race else ["prlimit", "--as=%d" % (12 << 30)]     # code that takes ever more memory crashes
        rc, o = self.sh(limit + [b] + [str(a) for a in args], timeout, env=self.env(env))
        return self._driven(rc, o, "driver " + " ".join(map(str, args)))

    def drive_inpkg(self, pkg, test, env, timeout=300):
        b = self.build_inpkg(pkg)
        rc, o = self.sh([b, "-test.run", "^%s$" % test, "-test.v", "-test.timeout", "%ds" % timeout],
                        timeout + 20, env=self.env(env))
        return self._driven(rc, o, "%s %s" % (pkg, test))

    def _driven(self, rc, o, what):
        if rc == 0:
            return o
        refused = re.search(r"^not started: (.*)$", o, re.M)
        if rc == 4 and refused:
            self.violate("the code under test refuses what it should accept (%s): %s" % (what, refused.group(1)[:200]), {"refused.txt": o[-20000:]})
            raise Stop()
        crash = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*|WARNING: DATA RACE)$", o, re.M)
        if crash and "verif harness" not in crash.group(0) and "test timed out" not in crash.group(0):
            body = o[crash.start():]
            frames = re.findall(r"influx-spout/v2/([A-Za-z0-9_./-]+?)\.[^\n]*\n\t(\S+):(\d+)", body)
            own = [f for f in frames if "zzverif" not in f[1] and "zz_verif" not in f[1] and "/verif/" not in f[1]]
            if own:
                self.violate("the code under test crashed (%s): %s at %s:%s" %
                             (what, crash.group(0)[:200], own[0][1], own[0][2]), {"crash.txt": body[:20000]})
                raise Stop()
        raise Broken("%s failed (rc=%s):\n%s" % (what, rc, o[-6000:]))

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, args, timeout, env=None, heap="3g", workers="auto", dfs=False):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(md, "run.cfg")
        open(cfgp, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + md]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
                "-config", cfgp] + args + [os.path.join(SPEC, module + ".tla")]
        e = self.env(env)
        e["TMPDIR"] = md
        rc, o = self.sh(cmd, timeout, cwd=md, env=e)
        shutil.rmtree(md, ignore_errors=True)
        return rc, o

    def mc(self, module, cfg, timeout=600, args=(), need_actions=True, idle_ok=(), heap="6g", env=None, label=None):
        """Exhaustive check of a bounded configuration of the specification.
        Any failure means the specification (not the code) is wrong."""
        rc, o = self._tlc(module, cfg, ["-coverage", "1"] + list(args), timeout, heap=heap, env=env)
        if rc != 0 or "Model checking completed. No error has been found." not in o:
            raise Broken("TLC on %s failed (rc=%s):\n%s" % (module, rc, o[-5000:]))
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", o, re.M)[-1]
        gen, dist = int(m[0]), int(m[1])
        self.transitions += gen
        self.states += dist
        acts = {}
        for a, d, g in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)$", o, re.M):
            acts[a] = max(acts.get(a, 0), int(g))
        if need_actions:
            idle = [a for a, g in acts.items() if g == 0 and a not in idle_ok and a != "Init"]
            if idle or not acts:
                raise Broken("%s: actions never taken: %s" % (module, idle))
        self.notes.setdefault("model_checking", []).append(
            {"module": label or module, "distinct_states": dist, "states_generated": gen, "actions": acts})
        self.log("TLC %s: %d distinct states, %d generated, no error" % (label or module, dist, gen))
        return o

    def generate(self, module, cfg, num, depth, timeout=300, env=None, seed=None):
        """Behaviours of the specification, produced by TLC's simulator: the
        module prints lines <<"SCRIPT", json>>."""
        rc, o = self._tlc(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth),
                                        "-seed", str(seed if seed is not None else self.seed)],
                          timeout, workers="1", env=env)
        scripts = []
        for mm in re.finditer(r'^<<"SCRIPT", (".*")>>$', o, re.M):
            scripts.append(json.loads(json.loads(mm.group(1))))
        if rc not in (0,) or not scripts:
            raise Broken("generating from %s failed (rc=%s):\n%s" % (module, rc, o[-4000:]))
        m = re.search(r"(\d+) states checked", o) or re.search(r"(\d+) states generated", o)
        if m:
            self.transitions += int(m.group(1))
        self.notes.setdefault("generated_behaviours", {})
        self.notes["generated_behaviours"][module] = self.notes["generated_behaviours"].get(module, 0) + len(scripts)
        return scripts

    def export(self, module, cfg, env, timeout=300):
        """Run TLC for its side effects (writing enumerated cases to a file)."""
        rc, o = self._tlc(module, cfg, [], timeout, workers="1", env=env)
        if rc != 0:
            raise Broken("TLC on %s failed (rc=%s):\n%s" % (module, rc, o[-4000:]))
        return o

    TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def judge(self, module, trace, what, cfg_extra="", timeout=600, heap="4g", traces=1, known=None, dfs=True, env=None):
        """Is the recorded execution a behaviour of the specification?
        known(event, mismatch) -> text of the known finding it is, or None."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise Broken("empty trace for " + module)
        ev = {"TRACE": trace}
        ev.update(env or {})
        rc, o = self._tlc(module, self.TRACE_CFG + cfg_extra, [], timeout, env=ev, heap=heap, workers="1", dfs=dfs)
        m = re.search(r'<<"FURTHEST", (\d+), (\d+)>>', o)
        if not m or rc is None or "evaluation" in o.lower() and "Error:" in o and "POSTCONDITION" not in o.upper():
            raise Broken("TLC could not judge the trace with %s (rc=%s):\n%s" % (module, rc, o[-6000:]))
        reached, total = int(m.group(1)), int(m.group(2))
        g = re.findall(r"^(\d+) states generated, (\d+) distinct states found", o, re.M)
        if g:
            self.transitions += int(g[-1][0])
            self.states += int(g[-1][1])
        self.events += min(reached - 1, total)
        if reached > total:
            self.traces += traces
            self.log("%s: %d events accepted by %s" % (what, total, module))
            return True
        lines = open(trace).read().split("\n")
        event = lines[reached - 1]
        mism = [x for x in re.findall(r'^"MISMATCH (\d+) (.*)"$', o, re.M) if int(x[0]) == reached]
        detail = "; ".join(x[1][:700] for x in mism[:4]) or "no action of the specification explains it"
        if known:
            k = known(json.loads(event), detail)
            if k:
                self.known_finding(k)
                return False
        self.violate("%s: line %d of the recorded execution is not allowed by %s: %s -- %s" %
                     (what, reached, module, event[:800], detail),
                     {"trace.ndjson": "\n".join(lines[:reached]) + "\n", "tlc.txt": o[-8000:],
                      "cfg": self.TRACE_CFG + cfg_extra})
        return False

    # ------------------------------------------------------------- verdicts
    def violate(self, msg, files=None):
        d = os.path.join(VERIF, "replays", "%s-%d-%d" % (self.pid, self.seed, len(self.violations) + 1))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "README.txt"), "w").write(
            "property %s, seed %d, tier %s\n%s\n\nReplay: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n" %
            (self.pid, self.seed, self.tier, msg, self.seed, self.tier, self.pid))
        for n, c in (files or {}).items():
            open(os.path.join(d, n), "w").write(c)
        self.violations.append((msg, d))
        self.log("VIOLATED:", msg[:3000])

    def known_finding(self, text):
        if text not in self.known:
            self.known.append(text)

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            s = json.dumps(x) if not isinstance(x, str) else x
            self.samples.append(s[:1500])

    def evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated_against_impl": self.events,
               "samples": self.samples or ["(none)"]}
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)

    def run(self, fn):
        code = 2
        try:
            try:
                fn(self)
            except Stop:
                pass
            for k in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
            if self.violations:
                for msg, d in self.violations:
                    print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)
                code = 1
            elif self.traces == 0:
                raise Broken("nothing was validated")
            else:
                code = 0
                self.log("held on everything explored")
            self.evidence()
        except Broken as ex:
            if self.violations:
                for msg, d in self.violations:
                    print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)
                code = 1
                self.evidence()
            else:
                print("CHECK-ERROR property=%s %s" % (self.pid, ex), flush=True)
                code = 2
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(code)


class Stop(Exception):
    """Enough is known; end the check with the verdicts so far."""


def parallel(*fns):
    """Run functions concurrently; re-raise the first exception."""
    errs = []

    def wrap(f):
        try:
            f()
        except BaseException as ex:  # noqa
            errs.append(ex)
    ts = [threading.Thread(target=wrap, args=(f,)) for f in fns]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        stops = [e for e in errs if isinstance(e, Stop)]
        raise (stops or errs)[0]


def shards(c, command, module, scripts, what, show=None, per=0, par=5, drive_timeout=400, judge_kw=None, traces=None, env=None, hasty=False):
    """Execute scripts with the driver and let TLC judge the traces, in
    parallel groups. False if something was violated."""
    per = per or max(4, min(60, -(-len(scripts) // par)))
    n = -(-len(scripts) // per)
    groups = [scripts[i::n] for i in range(n)]
    c.build(hasty=hasty)
    c.shard_sets = getattr(c, "shard_sets", 0) + 1
    tag = "%s-%d" % (command, c.shard_sets)
    ok = []
    lock = threading.Lock()
    todo = list(enumerate(groups))

    def worker():
        while True:
            with lock:
                if not todo or c.violations:
                    return
                k, part = todo.pop(0)
            src, out = c.path("%s-%d.json" % (tag, k)), c.path("%s-%d.ndjson" % (tag, k))
            open(src, "w").write("\n".join(json.dumps(s) for s in part) + "\n")
            c.drive([command, src, out], timeout=drive_timeout, env=env, hasty=hasty)
            r = c.judge(module, out, "%s (group %d of %d)" % (what, k + 1, n),
                        traces=traces(part) if traces else len(part), **(judge_kw or {}))
            os.remove(out)
            ok.append(r)
    parallel(*[worker] * min(par, len(groups)))
    for s in scripts[:3]:
        c.sample(show(s) if show else s)
    return all(ok)
