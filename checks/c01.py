"""C01: a capture is the requested window of the stack, for every entry point, stack and back end."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ENTRIES = ["raw.current", "raw.current2", "raw.generate", "raw.generate2", "obj.current", "obj.current2", "obj.generate",
           "obj.generate2", "st.current", "st.current2", "st.generate", "st.generate2", "c.raw", "c.obj", "c.st", "safe",
           "safe2", "c.safe"]
KINDS = ["plain", "template", "virtual", "function", "alloca", "cleanup", "try", "catch", "dtor", "unwind", "qsort",
         "recurse3", "thread", "signal", "sigalt", "fault", "fault0"]
SIGNALS = {"signal", "sigalt", "fault", "fault0"}


def configs():
    out = [Config("uw-O0", symbols="NOTHING", unwind="UNWIND"),
           Config("uw-O2", symbols="NOTHING", unwind="UNWIND", flags=["-g", "-O2", "-DNDEBUG"]),
           Config("ei-O0", symbols="NOTHING", unwind="EXECINFO"),
           Config("ei-O2", symbols="LIBDL", unwind="EXECINFO", flags=["-g", "-O2", "-DNDEBUG"], dl="DLADDR1"),
           Config("lu-O0", symbols="NOTHING", unwind="LIBUNWIND"),
           Config("lu-O2", symbols="NOTHING", unwind="LIBUNWIND", flags=["-g", "-O2", "-fomit-frame-pointer"]),
           Config("uw-clang", symbols="NOTHING", unwind="UNWIND", cxx="clang++", flags=["-g", "-O2"])]
    if thorough():
        out += [Config("lu-clang", symbols="LIBDL", unwind="LIBUNWIND", cxx="clang++", flags=["-g", "-O3"]),
                Config("ei-clang", symbols="NOTHING", unwind="EXECINFO", cxx="clang++", flags=["-g", "-O0"]),
                Config("uw-asan", symbols="NOTHING", unwind="UNWIND", flags=["-g", "-O1", "-fsanitize=address,undefined"])]
    return out


def run(c, exe, d, cases, name):
    inp, outp = os.path.join(d, name + ".in"), os.path.join(d, name + ".out")
    with open(inp, "w") as f:
        for q in cases:
            f.write(json.dumps(q) + "\n")
    p = sh([exe, inp, outp], cwd=d, check=False, timeout=600)
    lines = open(outp).read().split("\n")[:-1]
    res = []
    for q, l in zip(cases, lines):
        r = json.loads(l)
        if r["err"] == "ORACLE":
            raise CheckError("the reference stack does not start at the capturing call")
        r["q"] = {k: q[k] for k in ("kinds", "skip", "depth", "buf")}
        res.append(r)
    if p.returncode != 0:
        c.violate("%s: the program was killed (status %s) capturing %s: %s" % (
            name, p.returncode, json.dumps(cases[len(lines)]), p.err[-800:]), {"config": name, "case": cases[len(lines)]})
    return res


def body(c):
    d = workdir("c01")
    cfg = ("SPECIFICATION Spec\nINVARIANTS Consecutive StartsAtSkip Bounded Maximal Additive Emit\nCONSTANTS\n"
           ' Kinds = {%s}\n MaxCalls = %d\n Skips = {"0", "1", "2", "n-1", "n", "n+1"}\n'
           ' Depths = {"0", "1", "3", "n", "max"}\n Bufs = {"0", "2", "max9"}\n EmitOn = TRUE\n')
    cfg = cfg.replace('"max9"', '"n+1"')
    r = tlc("MCCapture", cfg % (", ".join('"%s"' % k for k in KINDS), 1), name="MCCapture")
    if not r.ok:
        raise CheckError("the capture model breaks its own invariants: " + r.out[-3000:])
    cases = [json.loads(json.loads(l)[5:]) for l in r.out.split("\n") if l.startswith('"CASE ')]
    c.add_tlc("MCCapture", r)
    if len(cases) < 3000:
        raise CheckError("only %d model cases" % len(cases))
    # deeper stacks and stranger windows
    for n in range(pick(2500, 15000)):
        kinds = [c.rng.choice(KINDS) for _ in range(c.rng.choice([0, 1, 2, 3, 4, 6]))]
        if c.rng.random() < 0.04:
            kinds.insert(0, "recurse%d" % c.rng.choice([40, 380, 399, 400, 401, 700, 1500]))
        e = c.rng.choice(ENTRIES)
        num = lambda: c.rng.choice(["0", "1", "2", "3", "5", "n", "n-1", "n-2", "n-3", "n+1", "n+2", "n+7", "100", "398", "399",
                                    "400", "401", "402", "1000", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "max", "max-1"])
        skip = num()
        while skip.startswith("max"):
            skip = num()
        cases.append({"kinds": kinds, "entry": e, "skip": skip, "depth": num(), "buf": c.rng.choice(["0", "1", "3", "n-1", "n", "n+1", "n+50"])})
    wraps = [{"kinds": ["plain"], "entry": e, "skip": s, "depth": "max", "buf": "n"} for e in ENTRIES for s in ("max", "max-1", "max-2", "max-3")]
    cfgs = configs()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda g: build_exe(build_lib(g), "capture", ["capture_driver.cpp"]), cfgs))
    c.log("built", len(exes))
    recs = []
    for g, exe in zip(cfgs, exes):
        mine = list(cases)
        if "-O2" in g.flags or g.cxx != "g++":
            mine = [q for q in cases if c.rng.random() < pick(0.5, 1)]
        if g.unwind == "EXECINFO":    # backtrace() does not tell an interrupted instruction from a return address
            mine = [q for q in mine if not SIGNALS & set(q["kinds"])]
        res = run(c, exe, d, mine, g.name)
        hard = 400 if g.unwind == "EXECINFO" else 10 ** 9
        # identical observations need validating once
        seen, ops = set(), []
        for x in res:
            key = json.dumps({k: v for k, v in x.items() if k != "q"}, sort_keys=True)
            if key not in seen:
                seen.add(key)
                ops.append(x)
        for i in range(0, len(ops), 50):
            recs.append({"config": g.name, "hard": hard, "ops": ops[i:i + 50]})
        c.log(g.name, len(res), "captures,", len(ops), "different")
        c.coverage[g.name] = {"captures": len(res), "distinct": len(ops)}
        c.sample({"config": g.name, "capture": ops[len(ops) // 2]})
        for x in run(c, exe, d, wraps, g.name + "-wrap"):
            if x["err"] or x["pos"]:
                c.violate("%s: skip near the maximum integer wraps: %s" % (g.name, json.dumps(x)[:400]), x, key="skip-wrap")
    tlc_traces(c, "TraceCapture", recs, name="TraceCapture",
               describe=lambda rec, j: rec["config"] + " " + json.dumps(rec["ops"][j - 1])[:700])


main("C01", body)
