"""Runner shared by all checks: build, model checking, driver execution, trace validation."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TAG = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
BUILD = os.path.join(VERIF, "build" + TAG) if not TAG else os.path.join("/tmp", "vbuild" + TAG)
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)
CXXFLAGS = ("-std=c++17 -O1 -g1 -fPIC -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS -DNDEBUG -DSRTC_VERIFY -w "
            "-DHAVE_OPENSSL=1")
CFLAGS = "-std=gnu99 -O1 -g1 -fsanitize=address -w -DHAVE_OPENSSL=1"
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:alloc_dealloc_mismatch=1")


class CheckError(Exception):
    """the check itself failed (not a violation)"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def lib_sources():
    src = []
    for ext in ("cpp", "c"):
        src += glob.glob(f"{REPO}/src/*.{ext}") + glob.glob(f"{REPO}/src/*/*.{ext}")
    return sorted(s for s in src if not re.search(r"_(win|macos)\.", s))


def build(drivers):
    """Builds the library of the current tree and the named drivers with ninja."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = f"-I{REPO}/include -I{REPO}/src -I{REPO}/src/stun -I{REPO}/src/sctp -I{VERIF}/harness"
        out = [f"cxxflags = {CXXFLAGS} {inc}", f"cflags = {CFLAGS} {inc}",
               "rule cxx\n command = g++ $cxxflags $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
               "rule cc\n command = gcc $cflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
               "rule ar\n command = rm -f $out && ar crs $out $in",
               "rule link\n command = g++ -fsanitize=address $in $libs -o $out"]
        objs = []
        for s in lib_sources():
            o = "obj/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
            out.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {s}")
            objs.append(o)
        out.append(f"build libsrtc.a: ar {' '.join(objs)}")
        out.append(f"build obj/vclock.o: cxx {VERIF}/harness/vclock.cpp")
        for d in sorted(glob.glob(f"{VERIF}/harness/drv_*.cpp")):
            n = os.path.basename(d)[:-4]
            out.append(f"build obj/{n}.o: cxx {d}")
            out.append(f"build {n}: link obj/{n}.o obj/vclock.o libsrtc.a\n libs = -lssl -lcrypto -lpthread -ldl")
        out.append("build all: phony " + " ".join(os.path.basename(d)[:-4] for d in sorted(glob.glob(f"{VERIF}/harness/drv_*.cpp"))))
        text = "\n".join(out) + "\n"
        path = os.path.join(BUILD, "build.ninja")
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(NPROC)] + drivers, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])


# ---------------------------------------------------------------- TLC
_uid = [0]


def tlc(module, cfg, env=None, workers=1, xmx="2g", timeout=800, extra=()):
    _uid[0] += 1
    meta = os.path.join(BUILD, "tlc", f"{module}-{os.getpid()}-{_uid[0]}")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", f"-Xmx{xmx}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={2 if workers == 1 else 4}",
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-nowarning", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC {module} exceeded {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def model_check(module, cfg, workers=NPROC, xmx="8g", timeout=800, constants=None):
    """Exhaustive run; returns (stats, list of printed histories)."""
    if constants:
        path = os.path.join(BUILD, f"{cfg[:-4]}-{os.getpid()}-{abs(hash(str(constants))) % 99999}.cfg")
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in constants.items():
            text = re.sub(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{k}\s*(?:=|<-)\s*).*$", rf"\g<1>{v}", text)
        open(path, "w").write(text)
        cfgp = path
    else:
        cfgp = os.path.join(SPEC, cfg)
    t = time.time()
    rc, out = tlc(module, cfgp, workers=workers, xmx=xmx, timeout=timeout)
    if constants:
        os.unlink(cfgp)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or not m:
        tail = "\n".join(x for x in out.splitlines() if not x.startswith('"H'))
        raise CheckError(f"model checking {module}/{cfg} failed:\n" + tail[-9000:])
    hists = [ln[2:-1] for ln in out.splitlines() if ln.startswith('"H')]
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    st = {"module": module, "cfg": cfg, "constants": constants or {}, "transitions": int(m.group(1)), "states": int(m.group(2)),
          "depth": int(d.group(1)) if d else 0, "wall_s": round(time.time() - t, 1)}
    log(f"MC {module}: {st}")
    return st, hists


def maximal(hists):
    """drop histories that are prefixes of others (';' separated ops)"""
    hs = sorted({h.rstrip(";") for h in hists})
    res = []
    for i, h in enumerate(hs):
        if i + 1 < len(hs) and hs[i + 1].startswith(h + ";"):
            continue
        res.append(h)
    return res


# ---------------------------------------------------------------- driver runs
def run_driver(driver, scenarios, base, timeout):
    """runs the scenarios (lists of op lines); returns (status, trace path)"""
    script, trace = base + ".script", base + ".trace"
    with open(script, "w") as f:
        for sc in scenarios:
            f.write("\n".join(sc) + "\n")
    if os.path.exists(trace):
        os.unlink(trace)
    try:
        r = subprocess.run([os.path.join(BUILD, driver), script, trace], env=ENV, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=BUILD)
        st = "ok" if r.returncode == 0 else f"crash rc={r.returncode}"
        err = r.stderr.decode("utf8", "replace")[:3000]
        if r.returncode == 2:
            raise CheckError("driver setup error: " + err)
    except subprocess.TimeoutExpired as e:
        st, err = "hang", (e.stderr or b"").decode("utf8", "replace")[-1000:]
    return st, trace, err


def scenario_of_line(trace, lineno):
    """index of the scenario which line number (1-based) belongs to"""
    n = -1
    with open(trace) as f:
        for i, ln in enumerate(f, 1):
            if '"op":"reset"' in ln:
                n += 1
            if i >= lineno:
                break
    return max(n, 0)


def count_resets(trace):
    try:
        return sum(1 for ln in open(trace) if '"op":"reset"' in ln)
    except FileNotFoundError:
        return 0


def validate(trace, module, prop, xmx="2g", timeout=700, env=None):
    """returns (accepted, line, detail, stats)"""
    e = {"TRACE": trace, "PROP": prop}
    e.update(env or {})
    rc, out = tlc(module, os.path.join(SPEC, "Trace.cfg"), env=e, xmx=xmx, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if re.search(r'<<\s*"ACCEPTED"', out) and rc == 0:
        return True, 0, "", st
    r = re.search(r'<<\s*"REJECTED",\s*(\d+)', out)
    if not r:
        raise CheckError(f"trace validation {module} did not finish:\n" + out[-4000:])
    mm = re.search(r'<<\s*"MISMATCH"', out)
    i = mm.start() if mm else -1
    if i < 0 and "evaluating" in out:
        raise CheckError(f"trace specification {module} cannot be evaluated:\n" + out[-4000:])
    det = out[i:out.find("Error:", i) if i >= 0 and out.find("Error:", i) > 0 else i + 3000][:3000] if i >= 0 else "no spec step matches"
    return False, int(r.group(1)), det, st


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.lines = 0
        self.samples = []
        self.mc = []
        self.kinds = {}
        self.violations = []
        self.notes = []


class Suite:
    """One driver + trace specification + scenario source."""
    name = "suite"
    driver = None
    trace_module = None
    driver_timeout = 240
    shards = NPROC
    min_kinds = {}          # event kind -> minimal count in the traces (guards against vacuous runs)
    env = None
    trust_first = False     # real threads: a recorded violation counts even if it does not come back

    def scenarios(self, tier, rng, prop, res):
        raise NotImplementedError

    # ---- execution
    def run(self, tier, seed, prop, res):
        rng = random.Random(f"{self.name}-{seed}")
        scs = self.scenarios(tier, rng, prop, res)
        scs = [sc if isinstance(sc, list) else list(sc) for sc in scs]
        work = os.path.join(BUILD, "run", f"{prop}-{self.name}")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        total = sum(len(s) for s in scs)
        k = max(1, min(self.shards, (total + 199) // 200))
        shards = [[] for _ in range(k)]
        size = [0] * k
        for i, sc in enumerate(scs):
            j = size.index(min(size))
            shards[j].append(sc)
            size[j] += len(sc)
        log(f"[{self.name}] {len(scs)} scenarios, {total} ops, {k} shards")

        def one(j):
            if not shards[j]:
                return j, None
            return j, self.one_shard(shards[j], os.path.join(work, f"s{j}"), prop)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(one, range(k)))
        bad = []
        for j, o in outs:
            if o is None:
                continue
            status, line, det, st, trace, err = o
            res.states += st[1]
            res.transitions += st[0]
            n = count_resets(trace)
            res.traces += n
            for ln in open(trace) if os.path.exists(trace) else []:
                res.lines += 1
                m = re.search(r'"op":"(\w+)"', ln)
                if m:
                    key = f"{self.name}:{m.group(1)}"
                    res.kinds[key] = res.kinds.get(key, 0) + 1
            if status != "ok":
                bad.append((j, status, line, det, trace, err))
        if scs:
            res.samples.append({"suite": self.name, "script": scs[rng.randrange(len(scs))][:40]})
        for j, status, line, det, trace, err in bad[:3]:
            idx = scenario_of_line(trace, line) if status == "reject" else max(count_resets(trace) - 1, 0)
            sc = shards[j][idx]
            # confirm in isolation; then in context
            base = os.path.join(work, f"confirm{j}")
            c = self.one_shard([sc], base, prop)
            ctx = [sc]
            if c[0] == "ok":
                ctx = shards[j][: idx + 1]
                c = self.one_shard(ctx, base, prop)
            if c[0] == "ok" and self.trust_first:
                for _ in range(10):
                    c = self.one_shard(ctx, base, prop)
                    if c[0] != "ok":
                        break
                else:
                    c = (status, line, det, (0, 0), trace, err)
            elif c[0] == "ok":
                raise CheckError(f"[{self.name}] unstable rejection ({status}: {det[:500]} {err[-500:]})")
            if not self.trust_first:
                ctx, c = self.shrink(ctx, c, base, prop)
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            rp = os.path.join(BUILD, "replay", f"{prop}-{self.name}-{j}.script")
            with open(rp, "w") as f:
                f.write(f"# suite {self.name} property {prop} driver {self.driver} spec {self.trace_module}\n")
                f.write(f"# {c[0]} line {c[1]}\n# " + (c[2] + c[5]).replace("\n", "\n# ") + "\n")
                for s in ctx:
                    f.write("\n".join(s) + "\n")
            res.violations.append({"replay": rp, "status": c[0], "detail": c[2] or c[5]})
        if not bad:
            for kd, mn in self.min_kinds.items():
                if res.kinds.get(f"{self.name}:{kd}", 0) < mn:
                    raise CheckError(f"[{self.name}] vacuous: only {res.kinds.get(f'{self.name}:{kd}', 0)} '{kd}' events")

    def shrink(self, ctx, c, base, prop):
        """drop the operations after the failing one (best effort, cheap)"""
        if len(ctx) == 1 and c[0] == "reject":
            sc = ctx[0]
            t0 = time.time()
            n = 8
            while n >= 1 and time.time() - t0 < 20 and len(sc) > 3:
                step = max(1, len(sc) // n)
                done = False
                i = len(sc) - step
                while i >= 1 and time.time() - t0 < 20:
                    cand = sc[:i] + sc[i + step:]
                    try:
                        r = self.one_shard([cand], base + "s", prop)
                    except CheckError:
                        r = ("ok",)
                    if r[0] == c[0]:
                        sc, c, done = cand, r, True
                    i -= step
                if step == 1:
                    break
                n *= 2
            return [sc], c
        return ctx, c

    def one_shard(self, scs, base, prop):
        st, trace, err = run_driver(self.driver, scs, base, self.driver_timeout)
        if st != "ok":
            return st, 0, "", (0, 0), trace, err
        ok, line, det, stats = validate(trace, self.trace_module, prop, env=self.env)
        return ("ok" if ok else "reject"), line, det, stats, trace, err


# ---------------------------------------------------------------- top level
def run_property(prop, suites, tier, level="model_checking", assumptions=()):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    res = Result()
    drivers = sorted({d for s in suites for d in ([s.driver] if isinstance(s.driver, str) else (s.driver or []))})
    try:
        if drivers:
            build(drivers)
        log(f"built in {time.time() - t0:.1f}s")
        for s in suites:
            s.run(tier, seed, prop, res)
    except CheckError as e:
        log("CHECK ERROR:", e)
        if not res.violations:
            sys.exit(3)
    cov = {"states": res.states + sum(m["states"] for m in res.mc),
           "transitions": res.transitions + sum(m["transitions"] for m in res.mc),
           "traces_validated_against_impl": res.traces, "trace_events": res.lines,
           "event_kinds": res.kinds, "model_runs": res.mc, "samples": res.samples[:4], "notes": res.notes}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 1), "violations": len(res.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith("KNOWN-FINDING:") and f"property={prop} " in ln:
                print(ln.strip())
    for v in res.violations:
        log(v["status"], v["detail"][:3000])
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
    print(f"{prop}: {'VIOLATED' if res.violations else 'held'} traces={res.traces} events={res.lines} states={cov['states']} wall={ev['wall_s']}s")
    return 1 if res.violations else 0
