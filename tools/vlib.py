"""Check runner: builds the recorder from /repo's working tree, records histories of the real code,
lets TLC judge them against the specifications, and writes evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import walk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("ECD_TARGET", os.path.join(VERIF, "target"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what = what
        self.data = data


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "JAVA_TOOL_OPTIONS"):
        env.pop(k, None)
    env.update(
        HOME="/root",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu",
        RUSTUP_AUTO_INSTALL="0",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
    )
    return env


def build(profile_env=None, target=TARGET, quiet=False):
    env = base_env()
    env.update(profile_env or {})
    p = subprocess.run(
        ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
         "--target-dir", target],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        if not quiet:
            sys.stdout.write(p.stdout.decode(errors="replace")[-6000:])
        raise ToolError("cargo build failed")
    return os.path.join(target, "debug", "ecdrive")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, ".work"))
        # many small file operations: memory-backed scratch when there is some
        self.fast = self.work
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > (256 << 20):
                self.fast = tempfile.mkdtemp(prefix="ecd-" + pid + "-", dir="/dev/shm")
        except OSError:
            pass
        self.replays = os.path.join(VERIF, "evidence", "replays")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.bin = None
        self.failing = False
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def hooked(self):
        """The recorder with chosen random numbers, or None if the code under test does not build that way."""
        try:
            return build(dict(RUSTFLAGS="--cfg ecd_hooks"), os.path.join(TARGET, "hook"), quiet=True)
        except ToolError:
            self.extra["chosen_random_numbers"] = "not built: skipped"
            self.log("no recorder with chosen random numbers: skipped")
            return None

    def log(self, msg):
        print("[%s %5.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def build(self):
        self.bin = build()
        self.log("recorder built")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=CORES, args=(), timeout=600, heap="6g",
            dfs=False, capture=None):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
                "-metadir", meta, "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
        e = base_env()
        e.update(env or {})
        out = capture or os.path.join(meta, "out.txt")
        with open(out, "wb") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % module)
        size = os.path.getsize(out)
        with open(out, errors="replace") as f:
            if size > 20_000_000:
                head = f.read(200_000)
                f.seek(size - 2_000_000)
                text = head + f.read()
            else:
                text = f.read()
        if capture is None:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, text, gen, dist

    def model(self, module, cfg=None, what="", expect="ok", **kw):
        """Checks a specification on its own. expect: 'ok' or 'bad' (a variant with a seeded design flaw)."""
        t = time.time()
        rc, text, gen, dist = self.tlc(module, cfg, **kw)
        name = os.path.basename(cfg or module)
        if expect == "ok" and rc != 0:
            sys.stdout.write(text[-4000:])
            raise ToolError("specification %s does not satisfy its own invariants (rc %d)" % (name, rc))
        if expect == "bad" and rc not in (12, 13, 14, 11, 10, 75, 76):  # 75, 76: reads what is not there
            sys.stdout.write(text[-4000:])
            raise ToolError("flawed variant %s was not rejected (rc %d)" % (name, rc))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append(dict(model=name, what=what, expect=expect, distinct_states=dist,
                                    states_generated=gen, wall_s=round(time.time() - t, 1)))
        self.log("model %s: %d distinct states, %s" % (name, dist, expect))
        return text

    def cfg(self, name, **over):
        """A configuration with other constants."""
        with open(os.path.join(SPEC, name)) as f:
            text = f.read()
        for k, v in over.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % k, lambda m: "%s %s" % (m.group(1), v), text)
            if n != 1:
                raise ToolError("no constant %s in %s" % (k, name))
        path = os.path.join(self.work, name.replace(".cfg", "") + "".join("-%s%s" % (k, v) for k, v in sorted(over.items()) if str(v).isalnum()) + ".cfg")
        with open(path, "w") as f:
            f.write(text)
        return path

    def design(self, module, cfg, what="", limit=None, **kw):
        """Checks a design specification and returns its state graph, for replay against the code."""
        edges = os.path.join(self.work, "edges-%s.csv" % os.path.basename(cfg))
        if os.path.exists(edges):
            os.remove(edges)
        self.model(module, cfg, what=what, env=dict(EDGES=edges), **kw)
        g = walk.Graph(edges)
        os.remove(edges)
        with self.lock:
            self.extra["design_transitions_replayed"] = self.extra.get("design_transitions_replayed", 0) + min(g.edges, limit or g.edges)
        return g

    # ------------------------------------------------------------- record
    def run_driver(self, args, timeout=None, env=None, mem_mb=6000, tag=None, bin=None):
        """Runs the recorder in a child process; a crash or hang is data about the code under test."""
        tag = tag or "j%d" % (id(args) & 0xFFFFFFF)
        timeout = timeout or self.q(150, 1800)
        if self.failing:
            return ""
        scratch = tempfile.mkdtemp(prefix="s", dir=self.fast)
        e = base_env()
        e["TMPDIR"] = scratch
        e.update(env or {})
        rc, err = self._spawn([bin or self.bin] + args, scratch, e, timeout, mem_mb)
        if rc == 0 or rc == "stopped":
            shutil.rmtree(scratch, ignore_errors=True)
            return err
        self.failing = True      # one failing history decides the check: the other recorders are not waited for
        # reproduce with a journal to name the call that did not return
        shutil.rmtree(scratch, ignore_errors=True)
        scratch = tempfile.mkdtemp(prefix="s", dir=self.fast)
        j = os.path.join(self.work, tag + ".journal")
        e["TMPDIR"] = scratch
        e["ECD_JOURNAL"] = j
        rc2, err2 = self._spawn([bin or self.bin] + args, scratch, e, min(timeout, 60), mem_mb, again=True)
        tail = ""
        if os.path.exists(j):
            with open(j, errors="replace") as f:
                tail = f.read()[-8000:]
        shutil.rmtree(scratch, ignore_errors=True)
        how = describe_rc(rc)
        raise Violation("the code under test did not survive an allowed history (%s)" % how,
                        dict(kind="crash", command=args, ending=how, second_run=describe_rc(rc2),
                             stderr=(err + err2)[-2000:], journal_tail=tail))

    def _spawn(self, cmd, cwd, env, timeout, mem_mb, again=False):
        def pre():
            import resource
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        errp = os.path.join(cwd, ".stderr")
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=pre)
            end = time.time() + timeout
            while True:
                try:
                    rc = p.wait(timeout=max(0.01, min(2.0, end - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    stop = self.failing and not again
                    if time.time() < end and not stop:
                        continue
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = "stopped" if stop and time.time() < end else "timeout"
                    break
        with open(errp, errors="replace") as f:
            return rc, f.read()[-4000:]

    def record(self, jobs, par=CORES, bin=None):
        """jobs: list of argument lists (without out=). Returns the trace files in order."""
        outs = [os.path.join(self.work, "tr%05d-%d.nd" % (len(os.listdir(self.work)), i)) for i in range(len(jobs))]

        def one(i):
            self.run_driver(jobs[i] + ["out=" + outs[i]], tag="job%d" % i, bin=bin)
        with ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(one, i) for i in range(len(jobs))]
            first = None
            for f in futs:
                try:
                    f.result()
                except Violation as v:
                    first = first or v
            if first:
                raise first
        return outs

    # ----------------------------------------------------------- validate
    def validate(self, module, traces, cfg=None, label="", env=None, sample=True, timeout=800, dfs=False,
                 max_mb=60):
        """TLC decides whether every recorded history is a behaviour of the trace specification."""
        groups, cur, size = [], [], 0
        for t in traces:
            s = os.path.getsize(t)
            if cur and size + s > max_mb << 20:
                groups.append(cur)
                cur, size = [], 0
            cur.append(t)
            size += s
        if cur:
            groups.append(cur)
        for gi, g in enumerate(groups):
            allp = os.path.join(self.work, "all-%s-%d.nd" % (module, gi))
            n = 0
            with open(allp, "w") as o:
                for t in g:
                    with open(t) as f:
                        for line in f:
                            if line.strip():
                                o.write(line)
                                n += 1
            if n == 0:
                continue
            rc, text, gen, dist = self.tlc(module, cfg, env=dict(env or {}, TRACE=allp), timeout=timeout, dfs=dfs)
            if rc == 0:
                ev = dist - n
                with self.lock:
                    self.states += dist
                    self.transitions += ev
                    self.traces += n
                    self.events += ev
                if sample and len(self.samples) < 6:
                    self.sample_from(allp, module)
                self.log("%s accepted %d histories, %d states (%s)" % (module, n, dist, label))
                os.remove(allp)
                continue
            if rc == 11 or (rc in (12, 75, 76, 151) or "Deadlock reached" in text):
                self.reject(module, allp, text, rc, label)
            sys.stdout.write(text[-4000:])
            raise ToolError("TLC failed on %s (rc %d)" % (module, rc))

    def sample_from(self, path, module):
        with open(path) as f:
            line = f.readline()
        try:
            d = json.loads(line)
            d["ev"] = d["ev"][:12]
            self.samples.append(dict(spec=module, history=d))
        except ValueError:
            pass

    def reject(self, module, path, text, rc, label):
        hs = re.findall(r"^/\\ h = (\d+)", text, re.M)
        ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
        data = dict(kind="rejected", spec=module, tlc_rc=rc, label=label)
        if hs and ls:
            hi, li = int(hs[-1]), int(ls[-1])
            with open(path) as f:
                for k, line in enumerate(f, 1):
                    if k == hi:
                        d = json.loads(line)
                        ev = d["ev"]
                        data.update(impl=d.get("im"), history=d.get("id"),
                                    header={k: v for k, v in d.items() if k != "ev"},
                                    accepted_events=ev[max(0, li - 200):li - 1], step=li,
                                    rejected_event=ev[li - 1] if li - 1 < len(ev) else None)
                        break
            st = re.findall(r"^State \d+:.*?(?=^State \d+:|\Z)", text, re.M | re.S)
            if st:
                data["specification_state"] = st[-1][:3000]
        err = re.findall(r"^Error: .*", text, re.M)
        data["tlc_errors"] = err[:6]
        raise Violation("history %s of %s is not a behaviour of %s: step %s, event %s" % (
            data.get("history"), data.get("impl"), module, data.get("step"),
            json.dumps(data.get("rejected_event"))[:300]), data)

    # -------------------------------------------------------------- finish
    def report(self, v):
        for k in self.known:
            if k["match"] in json.dumps(v.data):
                self.known_hits.append(k)
                return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, what=v.what, **v.data), f, indent=1)
        self.violations.append(v)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def evidence(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, trace_events=self.events,
                   models=self.models, samples=self.samples[:8])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def describe_rc(rc):
    if rc == "timeout":
        return "did not terminate"
    if isinstance(rc, int) and rc < 0:
        return "killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    return "exit code %s" % rc


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "open":
                        res.append(d)
    return res


def main(checks):
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    c = Check(pid)
    fn, level = checks[pid]
    code = 0
    try:
        c.build()
        try:
            fn(c)
        except Violation as v:
            c.report(v)
        for k in c.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        c.evidence(level)
        code = 1 if c.violations else 0
        c.log("done: %d violation(s), %d model+trace states, %d histories" % (len(c.violations), c.states, c.traces))
    except ToolError as e:
        print("TOOL-ERROR %s: %s" % (pid, e), flush=True)
        code = 2
    except subprocess.TimeoutExpired as e:
        print("TOOL-ERROR %s: %s" % (pid, e), flush=True)
        code = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
        shutil.rmtree(c.fast, ignore_errors=True)
    sys.exit(code)
