"""Common machinery of the checks: building harnesses from /repo, running TLC, replaying the
behaviours TLC generates into the real code and validating recorded histories with TLC."""
import concurrent.futures as cf
import hashlib, itertools, json, os, random, re, shutil, subprocess, sys, threading, time, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
SPEC, HARN, BUILD = f"{V}/spec", f"{V}/harness", f"{V}/build"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
FLAGS = ["-std=gnu++20", "-O1", "-g", "-fno-omit-frame-pointer", "-DAWL_INT_128", f"-I{REPO}", f"-I{REPO}/Platforms/Posix",
         f"-I{HARN}", "-pthread", "-w"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", LSAN_OPTIONS="exitcode=78", LC_ALL="C.UTF-8")
IO_CPP = ["AtomicStorage.cpp", "OptionalStorage.cpp", "PersistentObject.cpp"]


class MachineryError(Exception):
    pass


def q(tier_quick, tier_thorough):
    return tier_thorough if THOROUGH else tier_quick


def io_sources():
    d = f"{REPO}/Awl/Io"
    out = [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    p = f"{REPO}/Platforms/Posix"
    for root, _, files in sorted(os.walk(p)):
        out += [f"{root}/{f}" for f in sorted(files) if f.endswith(".cpp")]
    return out


def lib_sources(sub):
    d = f"{REPO}/Awl/{sub}"
    return [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def _compile(src, flags, cxx):
    """Object file for src, reused when the preprocessed text, the flags and the compiler are the same."""
    r = subprocess.run([cxx, *flags, "-E", src], capture_output=True)
    if r.returncode:
        raise MachineryError(f"cannot preprocess {src}:\n{r.stderr.decode()[-3000:]}")
    h = hashlib.sha256(r.stdout + repr((cxx, flags)).encode()).hexdigest()[:24]
    obj = f"{BUILD}/obj/{os.path.basename(src)}.{h}.o"
    if not os.path.exists(obj):
        os.makedirs(f"{BUILD}/obj", exist_ok=True)
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
        r = subprocess.run([cxx, *flags, "-c", src, "-o", tmp], capture_output=True)
        if r.returncode:
            raise MachineryError(f"cannot compile {src}:\n{r.stderr.decode()[-4000:]}")
        os.rename(tmp, obj)
    return obj


def build(name, srcs=None, flags=(), san=True, cxx="g++", base=None, link=()):
    srcs = [f"{HARN}/{name}.cpp"] if srcs is None else srcs
    fl = list(FLAGS if base is None else base) + (SAN if san else []) + list(flags)
    with cf.ThreadPoolExecutor(8) as ex:
        # a source may come with flags of its own
        objs = list(ex.map(lambda s: _compile(s, fl, cxx) if isinstance(s, str) else _compile(s[0], fl + list(s[1]), cxx), srcs))
    h = hashlib.sha256(repr((objs, fl, link)).encode()).hexdigest()[:16]
    exe = f"{BUILD}/bin/{name}.{h}"
    if not os.path.exists(exe):
        os.makedirs(f"{BUILD}/bin", exist_ok=True)
        tmp = f"{exe}.{os.getpid()}.{threading.get_ident()}.tmp"
        r = subprocess.run([cxx, *fl, *objs, *link, "-o", tmp], capture_output=True)
        if r.returncode:
            raise MachineryError(f"cannot link {name}:\n{r.stderr.decode()[-4000:]}")
        os.rename(tmp, exe)
    return exe


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        n = lambda s: int(s.replace(",", ""))
        self.generated, self.distinct = (n(m[1]), n(m[2])) if m else (0, 0)
        if not m and (m := re.search(r"The number of states generated: ([\d,]+)", out)):
            self.generated = n(m[1])
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[1]) if m else 0
        self.ok = "No error has been found" in out or (rc == 0 and "Error:" not in out)


def cfg_text(d):
    """d: dict of cfg sections"""
    out = []
    for k, v in d.items():
        if k == "CONSTANTS":
            out.append("CONSTANTS")
            out += [f"  {a} = {b}" if not str(b).startswith("<-") else f"  {a} {b}" for a, b in v.items()]
        elif isinstance(v, (list, tuple)):
            out += [f"{k} {x}" for x in v]
        else:
            out.append(f"{k} {v}")
    return "\n".join(out) + "\n"


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions, self.violations, self.known = [], [], []
        self.dir = f"{BUILD}/run/{pid}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))
        self.ids = itertools.count(1)
        self.hung = False
        self.lock = threading.RLock()

    def path(self, name):
        return f"{self.dir}/{name}"

    def detail(self, key, value):
        self.cov[key] = value

    def add(self, key, n):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            s = x if isinstance(x, str) else json.dumps(x)
            self.cov["samples"].append(s[:600])

    # ---- TLC -------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, args=(), timeout=600, heap="6g", must=True, quick_jit=True):
        n = next(self.ids)
        if isinstance(cfg, dict):
            f = self.path(f"{module}.{n}.cfg")
            open(f, "w").write(cfg_text(cfg))
        else:
            f = cfg
        meta = self.path(f"meta{n}")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{heap}", "-Xss64m"]
        if quick_jit:
            cmd.append("-XX:TieredStopAtLevel=1")
        cmd += ["-cp", JAR, f"-Djava.io.tmpdir={self.dir}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                "-seed", str(SEED), "-fp", "51", *args, "-config", f, f"{module}.tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC on {module} took over {timeout} s")
        shutil.rmtree(meta, ignore_errors=True)
        t = Tlc(r.stdout.decode("utf-8", "replace"), r.returncode)
        if must and not t.ok:
            raise MachineryError(f"TLC rejects the specification {module}:\n" + t.out[-4000:])
        return t

    def model(self, module, cfg, coverage_of=(), **kw):
        """Exhaustive check of a model's own properties."""
        t = self.tlc(module, cfg, **kw)
        self.add("states", t.distinct)
        self.add("transitions", t.generated)
        return t

    def graph(self, module, constants, invariants=("Inv",), props=(), max_edges=None, timeout=600, extra=None):
        """Exhaustive check that also returns the labelled transition graph (module XMC: EXTENDS X)."""
        cfg = dict(INIT="MCInit", NEXT="MCNext", VIEW="View", ACTION_CONSTRAINT="Emit", CONSTANTS=constants,
                   CHECK_DEADLOCK="FALSE", INVARIANT=list(invariants))
        if props:
            cfg["PROPERTY"] = list(props)
        if extra:
            cfg.update(extra)
        if not constants:
            del cfg["CONSTANTS"]
        t = self.model(module, cfg, timeout=timeout)
        edges, init = {}, None
        for line in t.out.splitlines():
            if line.startswith('"[\\"EDGE'):
                _, s, o, r, d = json.loads(json.loads(line))
                s, o, d = json.dumps(s), json.dumps(o), json.dumps(d)
                if init is None:
                    init = s
                e = edges.setdefault(s, {})
                if o in e and e[o] != (r, d):
                    raise MachineryError(f"{module}: nondeterministic step {o} in {s}")
                e[o] = (r, d)
        if not edges:
            raise MachineryError(f"{module}: no edges\n" + t.out[-2000:])
        ops = {}
        for e in edges.values():
            for o in e:
                ops[json.loads(o)[0]] = ops.get(json.loads(o)[0], 0) + 1
        self.cov.setdefault("action_counts", {})[module] = ops
        return init, edges

    def tours(self, graph, max_len=60, limit=None):
        """Behaviours that cover every edge of the graph (or a seeded part of it of about `limit` edges)."""
        init, edges = graph
        rng = random.Random(SEED * 7919 + len(edges))
        left = {}
        for s, e in edges.items():
            os_ = list(e)
            rng.shuffle(os_)
            left[s] = os_
        par, queue = {init: None}, [init]
        for s in queue:
            for o, (r, d) in edges.get(s, {}).items():
                if d not in par:
                    par[d] = (s, o)
                    queue.append(d)
        order = list(queue)
        tests, covered = [], 0
        total = sum(len(x) for x in left.values())
        if limit and limit < total:
            rng.shuffle(order)

        def prefix(s):
            p = []
            while par[s]:
                s, o = par[s]
                p.append((s, o))
            return p[::-1]

        for s0 in order:
            while left.get(s0):
                if limit and covered >= limit:
                    return tests, covered
                t = [(o, edges[s][o][0]) for s, o in prefix(s0)]
                s = s0
                while left.get(s) and len(t) < max_len:
                    o = left[s].pop()
                    covered += 1
                    r, d = edges[s][o]
                    t.append((o, r))
                    s = d
                tests.append(t)
        return tests, covered

    def write_tests(self, tests, name=None):
        f = self.path(name or f"tests{next(self.ids)}.txt")
        with open(f, "w") as o:
            for t in tests:
                o.write("[" + ",".join(f"[{op},{json.dumps(r)}]" for op, r in t) + "]\n")
        return f

    # ---- harness runs -----------------------------------------------------------------
    def run(self, cmd, timeout=q(200, 900), env=None, cwd=None):
        """Returns exit code (or "timeout"), stdout, stderr and the operations performed before a failure."""
        last = self.path(f"last{next(self.ids)}.txt")
        e = dict(ENV, VK_LAST=last, **(env or {}))
        try:
            r = subprocess.run(["timeout", "-s", "ABRT", "-k", "5", str(timeout), *[str(c) for c in cmd]], env=e, cwd=cwd or self.dir,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
            rc, out, err = r.returncode, r.stdout, r.stderr
            if rc in (124, 137):
                rc = "timeout"
        except OSError as x:
            raise MachineryError(str(x))
        ops = []
        if os.path.exists(last):
            ops = open(last, errors="replace").read().splitlines()[-400:]
            os.remove(last)
        return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), ops

    def harness(self, cmd, what, timeout=q(200, 900), env=None):
        """Runs a harness; anything but exit 0 that repeats is a violation. Returns stdout or None."""
        if self.hung:       # every further run would take its whole time too
            return None
        rc, out, err, _ = self.run(cmd, timeout, env)
        if rc == 0:
            return out
        if rc == 2:
            raise MachineryError(f"{what}: harness usage error\n{out[-500:]}{err[-1500:]}")
        rc2, out2, err2, ops = self.run(cmd, timeout, env)
        if rc2 == 0:
            raise MachineryError(f"{what}: harness failed once (exit {rc}) and passed when repeated\n{out[-1500:]}\n{err[-3000:]}")
        if rc2 == "timeout" or "HANG" in err2 or "an operation does not end" in out2:
            self.hung = True
        self.violation(what, dict(command=[str(c) for c in cmd], env=env, exit=rc2, stdout=out2[-2000:], stderr=err2[-6000:],
                                  last_operations=ops))
        return None

    def replay(self, exe, tests, what="replay of generated behaviours", timeout=q(200, 900), name=None, env=None, batch=None):
        if batch and len(tests) > batch:        # a process can run only so many behaviours
            return all(self.replay(exe, tests[i:i + batch], what, timeout, name, env) for i in range(0, len(tests), batch))
        f = self.write_tests(tests, name)
        out = self.harness([exe, "replay", f], what, timeout, env)
        if out is not None:
            m = re.search(r"OK tests=(\d+) steps=(\d+)", out)
            if not m:
                raise MachineryError(f"{what}: no OK line: {out[-500:]}")
            self.add("traces_validated_against_impl", int(m[1]))
            self.add("replayed_steps", int(m[2]))
        for t in tests[:2]:
            self.sample(dict(replayed=[[json.loads(o), r] for o, r in t[:8]]))
        return out is not None

    def validate(self, module, trace, constants=None, what="validation of recorded histories", invariants=("Inv",),
                 timeout=600, heap="6g", env=None, hidden=False):
        """Every line of the recorded trace must be a step of the specification."""
        cfg = dict(SPECIFICATION="TSpec", CHECK_DEADLOCK="FALSE", POSTCONDITION="Accepted")
        if constants:
            cfg["CONSTANTS"] = constants
        if invariants:
            cfg["INVARIANT"] = list(invariants)
        lines = open(trace).read().splitlines()
        if not lines:
            raise MachineryError(f"{what}: empty trace")
        t = self.tlc(module, cfg, env=dict(env or {}, TRACE=trace), must=False, timeout=timeout, heap=heap, quick_jit=False)
        if hidden and t.ok and "DIAM" not in t.out:
            raise MachineryError(f"{module}: no verdict\n" + t.out[-2000:])
        n = sum(1 for x in lines if x.startswith('{"o":["reset"]')) or 1
        if t.ok:
            if t.distinct < len(lines):
                raise MachineryError(f"{module}: {t.distinct} states for {len(lines)} events")
            self.add("states", t.distinct)
            self.add("transitions", t.generated)
            self.add("traces_validated_against_impl", n)
            self.add("recorded_events_validated", len(lines))
            self.sample(dict(recorded=lines[1:6]))
            return True
        m = re.findall(r'"?REJECT", (\d+), (.*)', t.out)
        inv = re.search(r"Invariant (\w+) is violated", t.out)
        d = re.search(r"DIAM\D+(\d+)", t.out)
        if not (d or inv) and re.search("Attempted to|was not in the domain|[Ee]valuating ", t.out) and not re.search("OutOfMemory|StackOverflow", t.out):
            self.violation(what, dict(specification_says="an event is outside of the specification: " + t.out[-3000:], history=lines[-20:], module=module))
            return False
        if not (d or inv):
            raise MachineryError(f"{module}: TLC failed on the recorded trace\n" + t.out[-4000:])
        if not d:
            d = re.search(r"depth of the complete state graph search is (\d+)", t.out)
        at = int(d[1]) if d else 0          # first unmatched line, 1-based
        start = at - 1
        while start > 0 and not lines[min(start, len(lines) - 1)].startswith('{"o":["reset"]'):
            start -= 1
        self.violation(what, dict(
            rejected_line=at, event=lines[at - 1] if 0 < at <= len(lines) else None,
            specification_says=m[-1][1][:1000] if m else "the operation is not enabled in the specification" if not inv else f"invariant {inv[1]} is violated",
            history=lines[start:at][-400:], module=module))
        return False

    def record(self, exe, n, module, constants=None, seed=None, episode=200, what=None, timeout=q(200, 900), name=None,
               invariants=("Inv",), env=None):
        f = self.path(name or f"trace{next(self.ids)}.ndjson")
        s = SEED if seed is None else seed
        out = self.harness([exe, "random", s, n, f, episode], (what or "random histories") + " (run)", timeout, env)
        if out is None:
            return False
        return self.validate(module, f, constants, what or "validation of random histories", invariants)

    def sweep(self, exe, module, configs, keys=None, limit=None, constants=None, timeout=q(200, 900), env=None, batch=None, **kw):
        """Every transition of the specification with each of the constants is replayed into the harness."""
        def one(d):
            g = self.graph(module, {**d, **(constants or {})}, **kw)
            with self.lock:
                tests, n = self.tours(g, limit=limit)
            self.add("edges_replayed", n)
            self.replay(exe, tests, f"replay of {module} {d}", timeout, env=dict(params(d), **(env or {})), batch=batch)
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(one, configs))

    def simulate(self, exe, module, constants, num, depth, what=None, workers=2, timeout=600, env=None, invariants=("Inv",)):
        """Random behaviours of the specification (module XSim), `depth` steps each, are replayed into the harness."""
        what = what or f"replay of random behaviours of {module} {constants}"
        t = self.tlc(module, dict(INIT="SInit", NEXT="SNext", CONSTANTS=dict(constants, Depth=depth), CHECK_DEADLOCK="FALSE",
                                  INVARIANT=[*invariants, "Emit"]),
                     args=("-simulate", f"num={num}", "-depth", str(depth + 2)), workers=workers, timeout=timeout, quick_jit=False)
        tests = []
        for line in t.out.splitlines():
            if line.startswith('"[\\"SIM'):
                tests.append([tuple(x) for x in json.loads(json.loads(line))[1]])
        if len(tests) < num // 2:
            raise MachineryError(f"{what}: only {len(tests)} behaviours\n" + t.out[-2000:])
        self.add("simulated_behaviours", len(tests))
        return self.replay(exe, tests, what, env=dict(params(constants), **(env or {})))

    # ---- results -----------------------------------------------------------------------
    def violation(self, what, info):
        with self.lock:
            self._violation(what, info)

    def _violation(self, what, info):
        d = f"{BUILD}/replay"
        os.makedirs(d, exist_ok=True)
        f = f"{d}/{self.pid}-{len(self.violations)}.json"
        info = dict(property=self.pid, what=what, seed=SEED, tier=TIER, **info)
        json.dump(info, open(f, "w"), indent=1)
        self.violations.append((what, f))
        print(f"-- {self.pid}: {what}: " + json.dumps({k: v for k, v in info.items() if k in (
            "event", "specification_says", "exit", "stdout", "rejected_line", "detail")})[:1500], flush=True)
        err = info.get("stderr")
        if err:
            m = re.search(r"(ERROR: .*|runtime error: .*|Assertion .*|what\(\): .*|terminate called.*)", err)
            print("   " + (m[1][:300] if m else err[-300:].replace("\n", " | ")), flush=True)

    def known_finding(self, what):
        print(f"KNOWN-FINDING: property={self.pid} {what}", flush=True)
        self.known.append(what)

    def finish(self):
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        os.makedirs(f"{V}/evidence", exist_ok=True)
        with open(f"{V}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for what, f in self.violations:
            print(f"VIOLATION property={self.pid} replay={f}", flush=True)
        if not self.violations:
            print(f"{self.pid}: held on everything explored ({json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})}, {ev['wall_s']} s)")
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def params(d):
    """Constants of a specification as the environment of its harness, in the order given."""
    return dict(VK_PARAMS=",".join(str(x) for x in d.values()))


def parallel(*fns):
    """Runs the functions at the same time and returns their results."""
    with cf.ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]


def known_findings(pid):
    """Entries of /verif/known_findings.json for a property, by key."""
    f = f"{V}/known_findings.json"
    if not os.path.exists(f):
        return {}
    return {e["key"]: e for e in json.load(open(f))["findings"] if e["property"] == pid}


class SetupDone(Exception):
    pass


class SetupCheck:
    """Stands for a Check while harnesses are built: a check builds everything it needs first."""
    def __getattr__(self, name):
        raise SetupDone()


def setup(checks):
    """Builds the harnesses of all checks, so that a check only rebuilds what changed."""
    def one(pid):
        try:
            checks[pid](SetupCheck())
        except SetupDone:
            pass
        except MachineryError as e:
            return f"{pid}: {e}"
    with cf.ThreadPoolExecutor(4) as ex:
        bad = [x for x in ex.map(one, sorted(checks)) if x]
    print("\n".join(bad) or f"built the harnesses of {len(checks)} checks")
    return 1 if bad else 0


def main(checks):
    pid, c = sys.argv[1], None
    try:
        c = Check(pid)
        checks[pid](c)
        rc = c.finish()
    except MachineryError as e:
        print(f"ERROR of the check {pid}: {e}", flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if rc == 2 and c and c.violations:      # something else could not be decided, but this was
        rc = c.finish()
    sys.exit(rc)
