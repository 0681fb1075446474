"""Shared machinery of the /verif checks: build harnesses from /repo's working tree, run TLC
(exhaustive, simulation, trace validation), collect evidence, report violations."""
import atexit, concurrent.futures, ctypes, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 2)


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


class Rejection(Exception):
    pass


_LIBC = ctypes.CDLL(None)


def _die_with_parent():
    _LIBC.prctl(1, signal.SIGKILL)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            self.generated = int(m[-1]) if m else 0


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.trace_events = 0
        self.op_counts = {}
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.mc_runs = []
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.outdir, True)

    # ------------------------------------------------------------------ tiers
    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------------ build
    def compile(self, name, sources, includes=(), defines=(), std="c++17", opt="-O1", flags=(), libs=()):
        """sources: paths (absolute, or relative to harness/). Compiled in parallel, linked to scratch/name."""
        incs = ["-I" + i for i in includes] + ["-I" + HARN]
        base = ["g++", "-std=" + std, opt, "-g1", "-w", "-fopenmp"] + ["-D" + d for d in defines] + list(flags) + incs
        objs, jobs = [], []
        for i, s in enumerate(sources):
            if not os.path.isabs(s):
                s = os.path.join(HARN, s)
            o = self.path("%s_%d.o" % (name, i))
            objs.append(o)
            jobs.append(base + ["-c", s, "-o", o])
        def one(cmd):
            return cmd, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for cmd, r in ex.map(one, jobs):
                if r.returncode:
                    raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        exe = self.path(name)
        cmd = base + objs + ["-o", exe] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        return exe

    def node(self, name, driver, node_src, cfg=(), defines=(), extra=(), flags=(), libs=(), opt="-O1", includes=()):
        """Builds a driver that includes an unmodified node source of REPO, on the deterministic ROS stand-in.
        cfg: dynamic_reconfigure .cfg files (relative to REPO) whose Config headers are generated first."""
        inc = [os.path.join(VERIF, "rosstub", "include")] + [os.path.join(REPO, p, "include") for p in
               ("neonavigation_common", "costmap_cspace", "planner_cspace", "trajectory_tracker", "track_odometry")]
        inc += ["/usr/include/eigen3"] + list(includes)
        for f in cfg:
            gen = self.path("cfg_include")
            r = subprocess.run([sys.executable, os.path.join(VERIF, "rosstub", "gen_cfg.py"), os.path.join(REPO, f), gen],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("cannot generate the configuration of %s\n%s" % (f, r.stdout[-3000:]))
            if gen not in inc:
                inc.append(gen)
        d = list(defines) + ['NODE_SRC="%s"' % os.path.join(REPO, node_src)]
        return self.compile(name, [driver] + [os.path.join(REPO, x) for x in extra], inc, d, opt=opt,
                            flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + list(flags),
                            libs=["-lboost_thread", "-lboost_chrono", "-lboost_system"] + list(libs))

    # ------------------------------------------------------------------ drive
    def drive(self, exe, args=(), stdin=None, timeout=120, env=None):
        """Run a harness. Returns (rc, stderr tail); rc None on timeout."""
        e = dict(os.environ)
        e.setdefault("OMP_NUM_THREADS", "2")
        e.setdefault("OMP_WAIT_POLICY", "passive")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98"
        if env:
            e.update(env)
        p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=e,
                             cwd=self.scratch, start_new_session=True, preexec_fn=_die_with_parent)
        try:
            _, err = p.communicate(stdin, timeout=timeout)
            return p.returncode, (err or "")[-4000:]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, "timeout after %ss" % timeout

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, consts=None, args=(), workers=1, heap="2g", timeout=600, env=None, defs=""):
        """Run TLC on a generated wrapper 'MC' that EXTENDS module and defines its constants."""
        self._n = getattr(self, "_n", 0) + 1
        meta = tempfile.mkdtemp(prefix="tlc_%s_" % module, dir=self.scratch)
        body = "---- MODULE MC ----\nEXTENDS %s\n" % module
        cfg = cfg_text.rstrip() + "\n"
        for k, v in (consts or {}).items():
            body += "const_%s == %s\n" % (k, v)
            cfg += "CONSTANT %s <- const_%s\n" % (k, k)
        body += defs + "\n====\n"
        with open(os.path.join(meta, "MC.tla"), "w") as f:
            f.write(body)
        with open(os.path.join(meta, "MC.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(meta, "st"),
               "-noGenerateSpecTE", "-workers", str(workers)] + list(args) + ["MC.tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=meta, env=e, start_new_session=True, preexec_fn=_die_with_parent)
        try:
            o, _ = p.communicate(timeout=timeout)
            res = TlcResult(p.returncode, o)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
            res = TlcResult(None, o or "")
        shutil.rmtree(meta, True)
        return res

    def mc(self, module, cfg_text, consts=None, workers=4, timeout=600, name=None, min_states=2, args=(), heap="4g", defs=""):
        """Exhaustive model checking of a specification (independent of the code)."""
        if os.environ.get("VERIF_REPO") and os.environ.get("VERIF_SKIP_MC"):
            return None   # development aid for mutants of a copy
        r = self.tlc(module, cfg_text, consts, args=["-deadlock"] + list(args), workers=workers, timeout=timeout, heap=heap, defs=defs)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise CheckError("specification %s: TLC did not finish cleanly (rc=%s)\n%s" % (module, r.rc, r.out[-3000:]))
        if r.distinct < min_states:
            raise CheckError("specification %s: only %d states (vacuous)" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_runs.append({"spec": name or module, "distinct_states": r.distinct, "states_generated": r.generated})
        return r

    def sim(self, module, cfg_text, num, depth, consts=None, timeout=300):
        """Random behaviours of a specification; the module prints each as one 'BEHAVIOUR <json>' line."""
        r = self.tlc(module, cfg_text, consts, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed), "-deadlock"],
                     workers=1, timeout=timeout)
        if r.rc != 0:
            raise CheckError("simulation of %s failed (rc=%s)\n%s" % (module, r.rc, r.out[-3000:]))
        out = []
        for line in r.out.splitlines():
            m = re.match(r'^"?BEHAVIOUR (.*?)"?$', line.strip())
            if m:
                out.append(json.loads(m.group(1).replace('\\"', '"')))
        self.notes["model_behaviours_" + module] = len(out)
        return out

    def tlc_trace(self, module, trace, consts=None, invariants=(), timeout=600, heap="3g"):
        """Validate one ndjson trace; returns (accepted, last matched line number (1-based, 0=none), tlc output)."""
        with open(trace) as f:
            n = sum(1 for _ in f)
        if n == 0:
            raise CheckError("empty trace %s" % trace)
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        r = self.tlc(module, cfg, consts, workers=1, timeout=timeout, heap=heap, env={"TRACE": trace})
        m = re.findall(r"MATCHED (\d+) OF (\d+)", r.out)
        inv = re.search(r"Invariant (\w+) is violated", r.out)
        if r.rc == 0 and m and int(m[-1][0]) == int(m[-1][1]) == n:
            return True, n, r
        if inv:
            # depth of the violating state
            st = re.findall(r"^State (\d+):", r.out, re.M)
            return False, max(0, int(st[-1]) - 2) if st else 0, r
        if m and int(m[-1][1]) == n:
            return False, int(m[-1][0]), r
        if "TLC was evaluating the nested" in r.out and r.distinct >= 1:
            # an event for which the specification is undefined (function applied outside its domain, overflow)
            return False, min(n - 1, r.distinct - 1), r
        raise CheckError("trace validation by %s broke down (rc=%s)\n%s" % (module, r.rc, r.out[-3500:]))

    def validate(self, module, traces, consts=None, invariants=(), rerun=None, script_of=None, timeout=600, what="",
                 known_filter=None):
        """traces: list of ndjson files. rerun(i): regenerate trace i again from the code (same inputs) to a new
        path, so that a rejection is reported only if it repeats. Each accepted file adds its episodes."""
        def one(i):
            return i, self.tlc_trace(module, traces[i], consts, invariants, timeout)
        bad = []
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for i, (ok, pos, r) in ex.map(one, range(len(traces))):
                self.transitions += r.generated
                self.states += r.distinct
                if ok:
                    self.count_trace(traces[i])
                else:
                    bad.append((i, pos, r))
        for i, pos, r in bad:
            tr = traces[i]
            if rerun is not None:
                tr2 = rerun(i)
                if tr2 is not None:
                    ok2, pos2, r2 = self.tlc_trace(module, tr2, consts, invariants, timeout)
                    if ok2:
                        log("rejection of %s did not repeat; ignored" % traces[i])
                        self.notes["unrepeated_rejections"] = self.notes.get("unrepeated_rejections", 0) + 1
                        continue
                    tr, pos, r = tr2, pos2, r2
            with open(tr) as f:
                lines = f.read().splitlines()
            start = min(pos, len(lines) - 1)
            while start > 0 and '"op":"begin"' not in lines[start][:40].replace(" ", ""):
                start -= 1
            ep = lines[start:pos + 1]
            self.violation("%s trace rejected by %s at event %d" % (what or self.pid, module, pos + 1),
                           {"module": module, "trace_file_index": i, "rejected_event": lines[pos] if pos < len(lines) else None,
                            "event_number": pos + 1, "episode": ep[-400:],
                            "script": script_of(i) if script_of else None,
                            "tlc": r.out[-2500:]})

    def run_scripts(self, exe, scripts, module, consts=None, invariants=(), timeout=120, tlc_timeout=600, env=None, name="", extra_args=()):
        """Replay operation scripts (lists of lines) on the real code with a driver (args: script, output) and
        validate every recorded trace. A driver crash or hang that repeats is a violation."""
        spaths, traces = [], []
        base = "%s_%d" % (name or module, len(os.listdir(self.scratch)))
        def drive(i, suffix=""):
            out = self.path("%s_t%d%s.ndjson" % (base, i, suffix))
            rc, err = self.drive(exe, [spaths[i], out] + list(extra_args), timeout=timeout, env=env)
            return rc, err, out
        for i, s in enumerate(scripts):
            spaths.append(write_lines(self.path("%s_s%d.txt" % (base, i)), s))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(drive, range(len(scripts))))
        for i, (rc, err, out) in enumerate(res):
            if rc != 0:
                rc2, err2, out2 = drive(i, "r")
                if rc2 != 0:
                    last = ""
                    try:
                        with open(out2) as f:
                            last = f.read()[-1500:]
                    except OSError:
                        pass
                    self.crash_violation("%s script %d" % (name or module, i), rc2, err2, {"script": scripts[i][-400:], "trace_tail": last})
                    continue
                out = out2
            traces.append((i, out))
        def rerun(k):
            rc, err, out = drive(traces[k][0], "v")
            return out if rc == 0 else None
        if traces:
            self.validate(module, [t for _, t in traces], consts, invariants, rerun=rerun, timeout=tlc_timeout,
                          script_of=lambda k: scripts[traces[k][0]][-400:], what=name)

    def count_trace(self, path):
        n = 0
        begins = 0
        with open(path) as f:
            for line in f:
                n += 1
                m = re.match(r'\{"op": ?"(\w+)"', line)
                if m:
                    k = m.group(1)
                    self.op_counts[k] = self.op_counts.get(k, 0) + 1
                    if k == "begin":
                        begins += 1
                if len(self.samples) < 6 and n % 37 == 5:
                    self.samples.append(line.strip()[:400])
        self.traces += max(1, begins)
        self.trace_events += n

    # ------------------------------------------------------------------ outcome
    def violation(self, msg, replay):
        os.makedirs(self.outdir, exist_ok=True)
        p = os.path.join(self.outdir, "replay_%d.json" % (len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "message": msg, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=str)
        self.violations.append((msg, p))
        log("violation:", msg)

    def crash_violation(self, what, rc, err, replay):
        self.violation("%s: harness ended abnormally (rc=%s): %s" % (what, rc, err[-600:]), replay)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.trace_events,
               "events_by_kind": self.op_counts, "model_checking_runs": self.mc_runs,
               "samples": self.samples or ["(no trace accepted in this run)"]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for msg, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        log("%s %s: %d violation(s); states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.tier, len(self.violations), self.states, self.transitions, self.traces, self.trace_events, time.time() - self.t0))
        return 1 if self.violations else 0


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        log("CHECK ERROR:", e)
        rc = 1 if c.violations and c.finish() else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations and c.finish() else 2
    sys.exit(rc)


def write_lines(path, lines):
    with open(path, "w") as f:
        for x in lines:
            f.write(x if x.endswith("\n") else x + "\n")
    return path
