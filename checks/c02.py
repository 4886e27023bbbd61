"""C02: every address gets its own object, symbol and line, whatever else is in the trace and however objects are loaded."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

FIX = os.path.join(HARNESS, "resolve", "fix.cpp")
PAGE = 4096
#        compile flags, link flags
LIBS = {
    "a": (["-g"], []),
    "b": (["-g"], ["-Wl,-Ttext-segment=0x10000000"]),
    "c": ([], ["-Wl,-z,noseparate-code"]),
    "d": ([], ["-s", "-Wl,-Ttext-segment=0x400000"]),
    "h": (["-g"], ["-Wl,-z,max-page-size=0x200000", "-Wl,-Ttext-segment=0x600000"]),
    "i": (["-g", "-fasynchronous-unwind-tables"], ["-Wl,--dynamic-linker=/lib64/ld-linux-x86-64.so.2", "-Wl,-Ttext-segment=0x20000000",
                                                   "-Wl,-z,noseparate-code"]),
    "g": (["-g"], ["-fuse-ld=gold"]),
    "k": (["-g", "-ffunction-sections"], ["-Wl,-Ttext-segment=0x7000", "-Wl,--build-id", "-rdynamic"]),
    "s": (["-g"], ["-Wl,-soname,other-name.so"]),
}
EXES = {"pie": ["-pie"], "nopie": ["-no-pie"], "based": ["-pie", "-Wl,-Ttext-segment=0x30000000", "-rdynamic"]}


def limbs(h):
    x = int(h, 16) if isinstance(h, str) else h
    return [x >> 48, (x >> 24) & 0xffffff, x & 0xffffff]


def elf_facts(path, only=None):
    """Symbols of the file by its own addresses (nm): [lo, hi, name, fn, dyn]."""
    out = {}
    for dyn in (False, True):
        p = sh(["nm", "-S", "-C"] + (["-D"] if dyn else []) + [path], check=False)
        for l in p.out.split("\n"):
            m = re.match(r"([0-9a-f]+) ([0-9a-f]+) (\S) (.*)", l)
            m2 = re.match(r"([0-9a-f]+) (\S) (.*)", l)
            if m:
                lo, sz, t, n = int(m.group(1), 16), int(m.group(2), 16), m.group(3), m.group(4)
            elif m2:
                lo, sz, t, n = int(m2.group(1), 16), 0, m2.group(2), m2.group(3)
            else:
                continue
            n = re.sub(r"@.*$", "", n)
            e = out.setdefault((lo, n), dict(lo=lo, hi=lo + sz, name=n, fn=t in "tTwWiu", dyn=False))
            e["dyn"] |= dyn and t.isupper()
    return sorted(out.values(), key=lambda e: e["lo"])


def file_symbols(path):
    return sorted({l.split()[-1] for l in sh(["readelf", "-sW", path]).out.split("\n") if re.search(r"\bFILE\b", l) and len(l.split()) > 7})


def positions(path, addrs):
    """Source positions by llvm-symbolizer (an implementation independent of the back ends)."""
    if not addrs:
        return {}
    p = sh(["llvm-symbolizer", "--obj=" + path, "--output-style=JSON"] + ["0x%x" % a for a in addrs])
    out = {}
    for l in p.out.split("\n"):
        if not l.strip():
            continue
        for r in (json.loads(l) if l.startswith("[") else [json.loads(l)]):
            out[int(r["Address"], 16)] = [dict(sym=s["FunctionName"], file=s["FileName"], line=s["Line"])
                                          for s in r.get("Symbol", []) if s["FileName"] and s["Line"]]
    return out


class Session:
    def __init__(self, c, exe, cwd, argv0, backend):
        self.c, self.exe, self.cwd, self.backend = c, exe, cwd, backend
        self.p = subprocess.Popen([argv0 or exe], executable=exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=cwd)
        self.log = []
        self.alone = {}
        self.objs = {}      # tag -> dict(path, handle, lib, marks, data)

    def q(self, x):
        self.log.append(x)
        self.p.stdin.write(x + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            self.p.wait()
            raise Died("status %s after %r" % (self.p.returncode, self.log[-4:]))
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Died(Exception):
    pass


def conv(f):
    f = dict(f)
    f["raw"], f["obj"] = limbs(f["raw"]), limbs(f["obj"])
    return f


def body(c):
    d = workdir("c02")
    os.makedirs(os.path.join(d, "dir with space"))

    def lib(n):
        cf, lf = LIBS[n]
        sh(["g++", "-shared", "-fPIC", "-O1", "-fvisibility=hidden", "-DLIB=" + n] + cf + [FIX, "-o", os.path.join(d, "lib%s.so" % n)] + lf)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lib, LIBS))
    shutil.copy(os.path.join(d, "liba.so"), os.path.join(d, "dir with space", "lib a.so"))
    shutil.copy(os.path.join(d, "libi.so"), os.path.join(d, "dir with space", "libb.so"))
    os.symlink(os.path.join(d, "libb.so"), os.path.join(d, "link.so"))
    shutil.copy(os.path.join(d, "libb.so"), os.path.join(d, "nonsense"))   # a decoy under the name in argv[0]

    # 1. the mechanism
    cfg = ("SPECIFICATION Spec\nINVARIANTS VariantsAgree EachItsOwn Served Emit\nCONSTANTS\n MaxLen = %d\n Batch = 2\n"
           " BaseFrom = \"%s\"\n EmitOn = %s\n")
    r = tlc("MCResolve", cfg % (pick(3, 4), "load", "TRUE"), name="MCResolve")
    if not r.ok:
        raise CheckError("the resolution model breaks its own invariants: " + r.out[-3000:])
    c.add_tlc("MCResolve", r)
    cases = sorted({l for l in r.out.split("\n") if l.startswith('"CASE ')})
    cases = [json.loads(json.loads(l)[5:]) for l in cases]
    if len(cases) < 1000:
        raise CheckError("only %d model cases" % len(cases))
    r = tlc("MCResolve", cfg % (2, "phdr", "FALSE"), name="MCResolve-phdr")
    if r.ok:
        raise CheckError("the model does not notice an image base read from PT_PHDR alone")

    # 2. replay
    backs = [("a2l", "addr2line", dict()), ("a2ld", "addr2line", dict(dl="DLADDR1")), ("a2ln", "addr2line", dict(dl="NONE")),
             ("dl", "dl", dict(symbols="LIBDL")), ("dld", "dl", dict(symbols="LIBDL", dl="DLADDR1")),
             ("bt", "libbacktrace", dict(symbols="LIBBACKTRACE")), ("btd", "libbacktrace", dict(symbols="LIBBACKTRACE", dl="DLADDR1")),
             ("no", "nothing", dict(symbols="NOTHING"))]
    if len(glob.glob(os.path.join(WORK, "lib", "shared", "*.o"))) > 600:
        shutil.rmtree(os.path.join(WORK, "lib", "shared"))
    runs = []
    for name, backend, kw in backs:
        cf = Config("rs-" + name, flags=["-O1"], share=True, **kw)
        for en in EXES:
            if en != "pie" and name in ("a2ln", "btd") and not thorough():
                continue
            runs.append((name, backend, kw, en, build_exe(cf, "resolve-" + en, ["resolve_driver.cpp", FIX], extra=["-g", "-O1", "-DLIB=exe"],
                                                          links=EXES[en])))
    c.log("built %d programs" % len(runs))
    filefacts = {}
    lays, recs = [], []
    lock = threading.Lock()

    def facts(path):
        with lock:
            if path not in filefacts:
                filefacts[path] = elf_facts(path)
            return filefacts[path]

    def session(arg):
        name, backend, kw, en, exe, rng = arg
        mine_l, mine_r = [], []
        argv0 = "nonsense" if kw.get("dl") != "NONE" else None
        s = Session(c, exe, d, argv0, backend)
        tag_path = {"exe": exe}

        def load(tag, path, lib, ns=0):
            r = s.q('load "%s" %s %d' % (path, lib, ns))
            if "error" in r:
                raise CheckError("cannot load %s: %s" % (path, r["error"]))
            m = s.q("marks %d" % r["i"])
            s.objs[tag] = dict(path=path, i=r["i"], lib=lib, ns=ns, **m)

        def layout(extra=()):
            """Snapshot of the loaded objects with the facts about their files; returns its index and the addresses to ask about."""
            raw = s.q("layout")["objs"]
            objs, ask = [], {}
            byname = {}
            for t, o in s.objs.items():
                byname[t] = o
            for o in raw:
                path = exe if o["name"] == "" else o["name"]
                segs = [[int(x, 16) for x in y] for y in o["segs"]]
                lo = min(x[0] for x in segs) // PAGE * PAGE
                hi = (max(x[1] for x in segs) + PAGE - 1) // PAGE * PAGE
                bias = int(o["bias"], 16)
                tag = [t for t, q in byname.items() if any(a <= int(q["data"], 16) < b for a, b in segs)]
                e = dict(path=path, bias=bias, segs=segs, lo=lo, hi=hi, file=os.path.exists(path) and path.startswith("/"), known=False,
                         alias=[argv0] if o["name"] == "" and backend == "dl" else [],
                         stripped=False, syms=[], pos=[], sources=[])
                if tag:
                    q = byname[tag[0]]
                    e["known"] = not (backend == "libbacktrace" and q["ns"])
                    e["stripped"] = q["lib"] == "d"
                    e["sources"] = [FIX]
                    if backend == "addr2line":      # it names the file of a local symbol
                        e["alias"] = file_symbols(path)
                    syms = facts(path)
                    prefix = "fix_" + q["lib"]
                    data = int(q["data"], 16) - bias
                    if q["lib"] == "exe":
                        asked = [data, int(q["text"], 16) - bias, lo - bias, hi - 1 - bias, segs[0][0] - bias, segs[-1][1] - 1 - bias]
                        syms = [x for x in syms if "fix_" in x["name"]] + [
                            x for a in asked for x in [y for y in syms if y["lo"] <= a and "fix_" not in y["name"]][-12:]] + [
                            x for x in syms if x["lo"] == x["hi"] and not x["fn"] and "fix_" not in x["name"]]
                    e["syms"] = syms
                    fns = [x for x in syms if x["fn"] and prefix in x["name"] and x["hi"] > x["lo"]]
                    marks = {int(m["pc"], 16) - bias: m for m in q["marks"]}
                    want = set(marks)
                    for x in fns:
                        want |= {x["lo"], x["hi"] - 1, rng.randrange(x["lo"], x["hi"])}
                    has = LIBS[q["lib"]][0] if q["lib"] in LIBS else ["-g"]
                    pos = positions(path, sorted(want)) if "-g" in has else {a: [] for a in want}
                    for a in want:
                        chain = pos.get(a, [])
                        cov = [x["name"] for x in syms if x["lo"] <= a < x["hi"] and x["fn"]]
                        if a in marks and "-g" in has:
                            m = marks[a]
                            chain = []
                            if m["oline"]:
                                chain += [dict(sym=x, file=FIX, line=m["line"]) for x in ("fix_%s::inner(int, int)" % q["lib"], "inner")]
                                chain += [dict(sym=x, file=FIX, line=m["oline"]) for x in cov]
                            else:
                                chain += [dict(sym=x, file=FIX, line=m["line"]) for x in cov]
                        elif chain:
                            # a local function may go by its plain name
                            chain = chain + [dict(chain[-1], sym=x) for x in cov]
                            chain = chain + [dict(x, sym=re.sub(r"\(.*", "", x["sym"]).split("::")[-1]) for x in chain]
                        if not cov:
                            continue
                        e["pos"].append(dict(at=a, chain=chain))
                    ask[tag[0]] = dict(marks=sorted(int(m["pc"], 16) for m in q["marks"]), code=[bias + a for a in sorted(want)],
                                       other=[int(q["data"], 16), int(q["text"], 16), lo, hi - 1, segs[0][0], segs[-1][1] - 1])
                objs.append(e)
            for e in objs:
                for k in ("bias", "lo", "hi"):
                    e[k] = limbs(e[k])
                e["segs"] = [[limbs(a), limbs(b)] for a, b in e["segs"]]
                e["syms"] = [dict(x, lo=limbs(x["lo"]), hi=limbs(x["hi"])) for x in e["syms"]]
                e["pos"] = [dict(x, at=limbs(x["at"])) for x in e["pos"]]
            mine_l.append(objs)
            s.alone = {}
            return len(mine_l), ask

        def ask_one(a):
            if a not in s.alone:
                s.alone[a] = [conv(f) for f in s.q("resolve %x" % a)["direct"]]
            return s.alone[a]

        def resolve(lay, addrs, alone=True):
            r = s.q("resolve " + " ".join("%x" % a for a in addrs))
            mine_r.append(dict(backend=backend, lay=lay, **{"as": [limbs(a) for a in addrs]},
                               direct=[conv(f) for f in r["direct"]], via=[conv(f) for f in r["via"]], objf=[conv(f) for f in r["objf"]],
                               single=[conv(f) for f in r["single"]],
                               alone=sum([ask_one(a) for a in addrs], []) if alone else [],
                               what="%s/%s: %s" % (name, en, " ".join("%x" % a for a in addrs[:6]))))

        try:
            m = s.q("marks -1")
            s.objs["exe"] = dict(path=exe, i=-1, lib="exe", ns=0, **m)
            order = list(LIBS)
            rng.shuffle(order)
            for n in order:
                load(n, os.path.join(d, "link.so" if n == "b" and rng.random() < .5 else "lib%s.so" % n), n)
            load("copy", os.path.join(d, "dir with space", "lib a.so"), "a")
            load("same", os.path.join(d, "dir with space", "libb.so"), "i")     # another file of the same name
            load("ns", os.path.join(d, "liba.so"), "a", 1)
            load("nsb", os.path.join(d, "libb.so"), "b", 1)
            jit = int(s.q("jit")["pc"], 16)
            lay, ask = layout()
            nowhere = [jit, jit + 7, 1, 2 ** 64 - 1, 2 ** 63, 0x800000000000, 4095]
            for a in sorted({x for v in ask.values() for k in v for x in v[k]}):     # everything once
                nowhere += [(a - 2 ** 32) % 2 ** 64] if rng.random() < .02 else []
            allof = [x for v in ask.values() for x in v["code"] + v["other"]] + nowhere + [0]
            rng.shuffle(allof)
            resolve(lay, allof)
            resolve(lay, [])
            # model cases over changing choices of the four objects
            n = {"addr2line": pick(90, 700), "libbacktrace": pick(200, 1500), "dl": pick(200, 1500), "nothing": pick(100, 500)}[backend]
            for case in rng.sample(cases, n):
                s.q("mode %d" % rng.randrange(3)) if rng.random() < .2 else None
                x = rng.choice([t for t in ask if t not in ("exe", "ns", "a")])
                pickobj = {1: "exe", 2: "a", 3: x, 4: "ns"}
                chosen = {}
                addrs = []
                for o, kn in case:
                    if (o, kn) not in chosen:
                        if o == 0:
                            chosen[o, kn] = 0 if kn == 0 else rng.choice(nowhere)
                        else:
                            v = ask[pickobj[o]]
                            chosen[o, kn] = rng.choice(v["other"] if kn == 3 else v["marks"] if kn == 2 else v["code"])
                    addrs.append(chosen[o, kn])
                if rng.random() < .06:      # recursion
                    addrs = [a for a in addrs for _ in range(rng.choice([1, 2, 5, 17, 40]))]
                resolve(lay, addrs)
            # a long trace: batches
            long = [rng.choice(allof) for _ in range(300)] + [rng.choice(ask["b"]["code"]) for _ in range(5200 if name == "a2l" else 600)]
            resolve(lay, long, alone=False)
            r = mine_r.pop()
            # (validated piecewise, against what each address gives on its own)
            if len(r["direct"]) == len(long) and len(r["objf"]) == len(long) and len(r["via"]) == len(long) and len(r["single"]) == len(long):
                for lo in [0, len(long) - 100] + [rng.randrange(0, len(long) - 100) for _ in range(3)] + ([300 + 2048 - 50, 300 + 4096 - 50]
                                                                                                  if len(long) > 5000 else []):
                    mine_r.append({k: (v[lo:lo + 100] if isinstance(v, list) else v) for k, v in r.items()})
                    mine_r[-1]["alone"] = sum([ask_one(a) for a in long[lo:lo + 100]], [])
                bad = [i for i, a in enumerate(long)
                       if dict(r["direct"][i], sym=0) != dict(ask_one(a)[-1], sym=0)]
                if bad:
                    i = bad[0]
                    mine_r.append({k: (v[i:i + 1] if isinstance(v, list) else v) for k, v in r.items()})
                    mine_r[-1]["alone"] = ask_one(long[i])
            else:
                mine_r.append(r)
            # objects come and go
            if backend != "libbacktrace":      # it reads the layout once
                for t in rng.sample(sorted(LIBS), 4) + ["copy"]:
                    s.q("close %d" % s.objs[t]["i"])
                    nowhere += ask[t]["code"][:2] + ask[t]["other"][:1]
                    s.objs.pop(t)
                for t in rng.sample([x for x in sorted(LIBS) if x not in s.objs], 3):
                    load(t, os.path.join(d, "lib%s.so" % t), t)
                lay, ask = layout()
                allof = [x for v in ask.values() for x in rng.sample(v["code"], 4) + v["other"]] + nowhere + [0]
                rng.shuffle(allof)
                resolve(lay, allof)
            s.close()
        except Died as e:
            with lock:
                c.violate("resolution died in %s/%s: %s" % (name, en, str(e)[:1500]), s.log[-6:])
        return mine_l, mine_r

    args = [r + (random.Random("%s-%s-%s" % (c.rng.random(), r[0], r[3])),) for r in runs]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for ml, mr in ex.map(session, args):
            for r in mr:
                r["lay"] += len(lays)
                recs.append(r)
            lays += ml
    c.log("%d resolutions, %d frames" % (len(recs), sum(len(r["as"]) for r in recs)))
    c.sample({k: v for k, v in recs[3].items() if k in ("what", "as", "direct")})

    def describe(rec, j):
        return "%s (%s)" % (rec["what"], rec["backend"])
    n = len(recs)
    chunks = [recs[i::16] for i in range(16)]

    def validate(a):
        i, ch = a
        used = sorted({r["lay"] for r in ch})
        ix = {l: i + 1 for i, l in enumerate(used)}
        tlc_traces(c, "TraceResolve", [dict(r, lay=ix[r["lay"]]) for r in ch], heap="3g",
                   extra_files={"layouts.json": json.dumps([lays[l - 1] for l in used])}, name="TraceResolve-%d" % i, describe=describe)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(validate, enumerate(chunks)))
    c.coverage["layouts"] = len(lays)
    c.coverage["frames"] = sum(len(r["as"]) for r in recs)
    c.coverage["programs"] = ["%s/%s" % (r[0], r[3]) for r in runs]
    c.assumptions += [
        "libbacktrace reads the set of loaded objects once, at its first use (objects loaded later have no information; unloading is not covered)",
        "a file is not replaced under its path while its image base is remembered",
        "the plain dladdr lookup (no _dl_find_object, no dladdr1) is run with argv[0] naming the executable: glibc's dladdr reports it",
        "between functions and in data, nothing or the name of an earlier symbol of the same object is accepted; at inlined "
        "calls any function of the inline chain with its own position",
    ]


main("C02", body)
