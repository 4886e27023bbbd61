"""Shared machinery of the checks: builds cpptrace from /repo's working tree, runs TLC, writes evidence."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "_work")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not give an answer (neither held nor violated)."""


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def thorough():
    return tier() == "thorough"


def pick(quick, deep):
    return deep if thorough() else quick


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def sh(cmd, timeout=600, cwd=None, env=None, check=True, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    p.out = p.stdout.decode("utf-8", "replace")
    p.err = p.stderr.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (
            p.returncode, " ".join(map(str, cmd))[:400], p.out[-2000:], p.err[-4000:]))
    return p


# ------------------------------------------------------------------------------------------------ building

class Config:
    def __init__(self, name, cxx="g++", flags=("-g", "-O0"), unwind="UNWIND", symbols="ADDR2LINE", demangle="CXXABI",
                 dl="FIND_OBJECT", extra=(), links=(), std=None, addr2line=None, shared=False, share=False):
        self.share = share
        self.name, self.cxx, self.unwind, self.symbols = name, cxx, unwind, symbols
        self.flags = list(flags) + (["-std=" + std] if std else [])
        self.shared = shared
        d = ["-DCPPTRACE_UNWIND_WITH_" + unwind, "-DCPPTRACE_GET_SYMBOLS_WITH_" + symbols,
             "-DCPPTRACE_DEMANGLE_WITH_" + demangle, "-DCPPTRACE_HAS_CXX_EXCEPTION_TYPE", "-DHAS_ATTRIBUTE_PACKED",
             "-DNOMINMAX"]
        if not shared:
            d.append("-DCPPTRACE_STATIC_DEFINE")
        else:
            d.append("-Dcpptrace_lib_EXPORTS")
        if dl == "FIND_OBJECT":
            d.append("-DCPPTRACE_HAS_DL_FIND_OBJECT")
        elif dl == "DLADDR1":
            d.append("-DCPPTRACE_HAS_DLADDR1")
        if symbols == "ADDR2LINE":
            if addr2line == "SEARCH":
                d.append("-DCPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH")
            else:
                d.append('-DCPPTRACE_ADDR2LINE_PATH="%s"' % (addr2line or shutil.which("addr2line") or
                                                             "/usr/bin/addr2line"))
        if unwind == "UNWIND":
            pass
        self.defines = d + list(extra)
        self.links = list(links)
        if unwind == "LIBUNWIND":
            self.links += ["-lunwind-x86_64", "-lunwind"]
        if symbols == "LIBBACKTRACE":
            self.links.append("-lbacktrace")
        self.links += ["-ldl", "-lpthread"]


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]


_include_lock = threading.Lock()
_include_dir = None


def include_dir():
    global _include_dir
    with _include_lock:
        if _include_dir is None:
            _include_dir = _make_include_dir()
        return _include_dir


def _make_include_dir():
    """version.hpp is generated by cmake from a template; generate the same file here."""
    d = os.path.join(WORK, "include")
    out = os.path.join(d, "cpptrace", "version.hpp")
    text = open(os.path.join(REPO, "cmake/in/version-hpp.in")).read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    v = m.groups() if m else ("1", "0", "0")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v):
        text = text.replace("@CPPTRACE_VERSION_%s@" % k, x).replace("${CPPTRACE_VERSION_%s}" % k, x)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != text:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(text)
        os.replace(tmp, out)
    return d


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in ("src", "include", "cmake/in"):
            for p in sorted(glob.glob(os.path.join(REPO, root, "**", "*"), recursive=True)):
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
        h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def incs():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-isystem", include_dir()]


def _compile(args):
    cmd, out = args
    tmp = out + ".tmp%d-%d.o" % (os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:])
    os.replace(tmp, out)
    return None


def _compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(_compile, jobs):
            if err:
                raise CheckError("compilation failed: " + err)


def _shared_jobs(cfg, jobs):
    """Sources that read the same under several configurations are compiled once: objects by preprocessed text."""
    pool = _mk(os.path.join(WORK, "lib", "shared"))

    def key(job):
        cmd, out = job
        p = subprocess.run([x if x != "-c" else "-E" for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return None
        return hashlib.sha256(repr((cfg.cxx, cfg.flags)).encode() + p.stdout).hexdigest()[:24]

    todo = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for (cmd, out), k in zip(jobs, ex.map(key, jobs)):
            obj = os.path.join(pool, k + ".o") if k else out
            if not os.path.exists(obj):
                todo[obj] = (cmd, obj)
            if k:
                if os.path.islink(out + ".shared"):
                    os.unlink(out + ".shared")
                os.symlink(obj, out + ".shared")
    return list(todo.values())


def build_lib(cfg):
    """Compile every source file of /repo's current tree into WORK/lib/<key>/; returns objects and key."""
    key = hashlib.sha256(repr((tree_hash(), cfg.cxx, cfg.flags, cfg.defines, cfg.shared)).encode()).hexdigest()[:16]
    d = os.path.join(WORK, "lib", cfg.name + "-" + key)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    if not srcs:
        raise CheckError("no sources in " + REPO)
    for old in glob.glob(os.path.join(WORK, "lib", cfg.name + "-*")):
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([cfg.cxx, "-c", s, "-fPIC", "-w", "-fvisibility=hidden", "-fvisibility-inlines-hidden"] +
                         cfg.flags + cfg.defines + incs(), o))
    if cfg.share:
        jobs = _shared_jobs(cfg, jobs)
    _compile_all(jobs)
    for o in objs:
        if not os.path.exists(o):
            os.link(os.readlink(o + ".shared"), o)
    cfg.objs, cfg.key, cfg.dir = objs, key, d
    if cfg.shared:
        so = os.path.join(d, "libcpptrace.so.1")
        if not os.path.exists(so):
            sh([cfg.cxx, "-shared", "-o", so + ".tmp", "-Wl,-soname,libcpptrace.so.1"] + cfg.flags + objs + cfg.links)
            os.replace(so + ".tmp", so)
        cfg.so = so
    return cfg


def build_exe(cfg, name, sources, extra=(), links=(), hidden=False):
    """Link harness sources against the library objects of cfg."""
    if not hasattr(cfg, "objs"):
        build_lib(cfg)
    srcs = [s if s.startswith("/") else os.path.join(HARNESS, s) for s in sources]
    h = hashlib.sha256(repr((cfg.key, list(extra), list(links))).encode())
    for s in srcs + sorted(glob.glob(os.path.join(HARNESS, "*.hpp"))):
        h.update(open(s, "rb").read())
    d = os.path.join(WORK, "exe")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (name, cfg.name, h.hexdigest()[:16]))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(d, "%s-%s-*" % (name, cfg.name))):
        if os.path.isfile(old):
            os.unlink(old)
    jobs, objs = [], []
    pub = [x for x in cfg.defines if x not in ("-Dcpptrace_lib_EXPORTS",)]
    for s in srcs:
        o = os.path.join(cfg.dir, "h_%s_%s_%s.o" % (name, os.path.basename(s), h.hexdigest()[:12]))
        objs.append(o)
        cc = [cfg.cxx]
        if s.endswith(".c"):
            cc = ["gcc" if "g++" in cfg.cxx else "clang"]
        jobs.append((cc + ["-c", s, "-w"] + [f for f in cfg.flags if not (s.endswith(".c") and "-std=" in f)] + pub +
                     ["-I" + HARNESS] + incs() + list(extra), o))
    _compile_all(jobs)
    lib = [cfg.so, "-Wl,-rpath," + os.path.dirname(cfg.so)] if cfg.shared else cfg.objs
    sh([cfg.cxx, "-o", exe + ".tmp"] + cfg.flags + objs + lib + list(links) + cfg.links)
    os.replace(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return exe


# ------------------------------------------------------------------------------------------------ TLC

class TLCResult:
    pass


def tlc(spec, cfg, files=None, workers=None, env=None, timeout=800, deadlock=False, name=None, heap="6g",
        simulate=None, depth=None, coverage=False, keep=False, sd=None):
    """Run TLC on specs/<spec>.tla with config text `cfg`; `files` are copied beside it. Raises CheckError unless TLC
    ends with success or with a property violation/deadlock/assumption failure."""
    d = tempfile.mkdtemp(prefix="tlc-" + (name or spec) + "-", dir=_mk(os.path.join(WORK, "tlc")))
    for f in glob.glob(os.path.join(SPECS, "*.tla")):
        shutil.copy(f, d)
    for fn, text in (files or {}).items():
        open(os.path.join(d, fn), "w").write(text)
    open(os.path.join(d, "M.cfg"), "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers or JOBS), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", "M.cfg", "-seed", str(seed() if sd is None else sd)]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(spec + ".tla")
    t0 = time.time()
    try:
        p = sh(cmd, cwd=d, env=env, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + spec)
    r = TLCResult()
    r.out, r.code, r.dir, r.wall = p.out, p.returncode, d, time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m and (m := re.findall(r"number of states generated: (\d+)", p.out)):
        r.generated = r.distinct = int(m[-1])
    r.ok = p.returncode == 0
    # 10 assumption, 11 deadlock, 12 safety, 13 liveness
    r.violated = p.returncode in (10, 11, 12, 13)
    if not r.ok and not r.violated:
        raise CheckError("TLC failed on %s (exit %d): %s" % (spec, p.returncode, p.out[-3500:] + p.err[-1000:]))
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return r


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def tlc_traces(c, spec, records, extra_files=None, name=None, invariant="Conforms", batch=None, describe=None,
               consts="", key=None, heap="6g", timeout=800):
    """Validate recorded executions (list of JSON-able records) against specs/<spec>.tla; a rejected record is
    re-validated alone, reported, set aside, and the rest is validated again (at most a few rounds)."""
    recs = list(records)
    n_all = len(recs)
    for rnd in range(4):
        files = dict(extra_files or {})
        files["traces.ndjson"] = "".join(json.dumps(r) + "\n" for r in recs)
        cfg = "SPECIFICATION Spec\nINVARIANT %s\n%s" % (invariant, consts)
        r = tlc(spec, cfg, files, name=name, heap=heap, timeout=timeout)
        if r.ok:
            c.add_tlc(name or spec, r, traces=len(recs))
            return n_all - len(recs)
        m = re.findall(r"^/\\ k = (\d+)", r.out, re.M)
        if not m:
            at = r.out.find("Error:")
            raise CheckError("cannot tell which trace TLC rejected: " + r.out[max(at, 0):][:3000])
        k = int(m[-1])
        rec = recs[k - 1]
        bad = re.findall(r"^/\\ bad = (.*?)(?=^/\\ |\Z|^\s*$)", r.out, re.M | re.S)
        jj = re.findall(r"^/\\ j = (\d+)", r.out, re.M)
        what = "%s rejects trace: %s (step %s): %s" % (
            spec, (bad[-1].strip() if bad else "")[:1200], int(jj[-1]) - 1 if jj else "?",
            (describe(rec, int(jj[-1]) - 1 if jj else 0) if describe else json.dumps(rec))[:1500])
        c.violate(what, rec, key=key(rec) if key else None)
        recs.pop(k - 1)
        if not recs:
            return n_all
    return n_all - len(recs)


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    return _mk(d)


# ------------------------------------------------------------------------------------------------ reporting

def known_findings(prop):
    """(key, text) of the entries of KNOWN_FINDINGS.txt that are findings (not fixed) of this property."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.coverage, self.assumptions, self.violations = [], {}, [], []
        self.rng = random.Random("%s-%d" % (prop, seed()))
        self.known = dict(known_findings(prop))
        self.known_hit = set()
        self.parts = []
        self.exhaustive = None

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add_tlc(self, name, r, traces=0):
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += traces
        self.parts.append({"tlc": name, "distinct": r.distinct, "generated": r.generated, "traces": traces,
                           "wall_s": round(r.wall, 1)})
        self.log("TLC %s: %d distinct / %d generated states, %.1fs%s" % (
            name, r.distinct, r.generated, r.wall, ", %d traces" % traces if traces else ""))

    def violate(self, what, replay, key=None):
        """Record a violation. `replay` (any JSON value) reproduces it."""
        if key is not None and key in self.known:
            self.known_hit.add(key)
            return
        self.violations.append((what, replay))
        self.log("VIOLATION:", what[:900])

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]), flush=True)
        cov = dict(self.coverage)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, parts=self.parts)
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        _mk(os.path.join(VERIF, "evidence"))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = _mk(os.path.join(WORK, "replay"))
            path = os.path.join(d, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:50]], f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            sys.exit(1)
        self.log("held on everything explored")
        sys.exit(0)


def main(prop, body, level="model_checking"):
    c = Check(prop, level)
    try:
        body(c)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr, flush=True)
        if c.violations:  # a violation already established by the real code stands
            c.finish()
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR %s: timeout %s" % (prop, e), file=sys.stderr, flush=True)
        if c.violations:
            c.finish()
        sys.exit(2)
    c.finish()
