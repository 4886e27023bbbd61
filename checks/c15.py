"""C15: signal-safe capturing at every instruction of workloads, against the calls and returns that were executed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MODEL = ("SPECIFICATION Spec\nINVARIANTS NeverWaits InBounds Exact Unchanged Emit\n%sCONSTANTS\n Mech = \"%s\"\n Funs = {\"f\", \"g\"}\n MaxStack = %d\n"
         " MaxSignals = %d\n Skips = {%s}\n Depths = {%s}\n Sizes = {%s}\n EmitOn = %s\n")
BIG = 1000
WORK_LOADS = ["calls", "malloc", "strings", "capture", "throw", "libc"]


def models(c):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        a = ex.submit(tlc, "MCSafe", MODEL % ("", "safe", 3, 1, "0, 1, 2, 3, 4", "0, 1, 2, 4, 1000", "0, 1, 2, 4, 1000", "TRUE"), name="MCSafe")
        b = ex.submit(tlc, "MCSafe", MODEL % (("PROPERTY Finishes\n", "safe", 3, 2) + pick(("0, 1", "1, 1000", "2"), ("0, 1, 2", "1, 1000", "0, 2, 1000")) + ("FALSE",)),
                      name="MCSafe-nested")
        broken = {m: ex.submit(tlc, "MCSafe", MODEL % ("", m, 3, 1, "0, 1", "1, 1000", "0, 2, 1000", "FALSE"), name="MCSafe-" + m)
                  for m in ("allocating", "caching", "unbounded", "adjusting")}
        a, b = a.result(), b.result()
        for r in (a, b):
            if not r.ok:
                raise CheckError("the model breaks its own properties: " + r.out[-2000:])
        c.add_tlc("MCSafe", a)
        c.add_tlc("MCSafe-nested", b)
        for m, r in broken.items():
            if r.result().ok:
                raise CheckError("the model does not notice a mechanism that is " + m)
    return {l for l in a.out.split("\n") if l.startswith('"CASE ')}


def body(c):
    d = workdir("c15")
    cases = [json.loads(json.loads(l)[5:]) for l in models(c)]
    windows = sorted({(q["skip"], q["depth"], q["size"]) for q in cases})
    if len(windows) < 100:
        raise CheckError("only %d windows" % len(windows))
    real = lambda x: (1 << 64) - 1 if x == BIG else x
    # an unbounded buffer of the model is one with room for every frame; frames of the handler come first
    params = ["%d,%d,%d,%d" % (e, s + (3 if (s + dp + z) % 2 else 0), real(dp), 64 if z == BIG else z) for s, dp, z in windows for e in range(3)]
    params += ["%d,%d,%d,%d" % (e, s, dp, z) for e in range(3) for s, dp, z in ((0, 5, 7600), (2, 1 << 40, 3), (1 << 40, 3, 3), (1 << 62, 1 << 62, 9), (7, 0, 9), (500, 500, 500))]
    c.rng.shuffle(params)
    cfgs = [(Config("safe-O1", flags=["-g", "-O1"], unwind="LIBUNWIND", symbols="LIBDL"), 1, 1),
            (Config("safe-O2", flags=["-g", "-O2", "-DNDEBUG"], unwind="LIBUNWIND", symbols="NOTHING"), 1, 1),
            (Config("safe-nopie", flags=["-g", "-O0"], unwind="LIBUNWIND", symbols="LIBDL", links=["-no-pie"]), 1, 1),
            (Config("safe-dladdr", flags=["-g", "-O1"], unwind="LIBUNWIND", symbols="LIBDL", dl="DLADDR1"), 1, 0),
            (Config("safe-uw", flags=["-g", "-O1"], unwind="UNWIND", symbols="LIBDL"), 0, 1),
            (Config("safe-ei", flags=["-g", "-O1"], unwind="EXECINFO", symbols="LIBDL", dl="DLADDR1"), 0, 0)]
    if thorough():
        cfgs.append((Config("safe-clang", cxx="clang++", flags=["-g", "-O2"], unwind="LIBUNWIND", symbols="LIBDL"), 1, 1))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda g: build_exe(build_lib(g[0]), "safe", ["safe_driver.cpp"]), cfgs))
    c.log("built", len(exes))

    jobs = []
    for (cf, un, ob), exe in zip(cfgs, exes):
        jobs.append((cf.name, un, ob, exe, "support", 0, 1, params[:3]))
        if not un:
            continue
        full = cf.name in ("safe-O1", "safe-O2", "safe-clang")
        for how in ("main", "thread", "signal"):
            for w in WORK_LOADS:
                if not full and how != "main" and not thorough():
                    continue
                steps = pick(60000 if full else 25000, 1000000)
                if w == "throw":
                    steps = max(steps, 110000)
                jobs.append((cf.name, un, ob, exe, how + "/" + w, steps, 997 if steps < 200000 else 4999, params))
        jobs.append((cf.name, un, ob, exe, "fault", 0, 1, params))

    def go(j):
        name, un, ob, exe, w, steps, every, ps = j
        out = os.path.join(d, "%s-%s.json" % (name, w.replace("/", "-")))
        p = sh([exe, w, str(seed() * 100 + len(w)), str(steps or 10), str(every), out] + ps, cwd=d, check=False, timeout=600)
        return p.returncode, p.err[-300:], out

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(go, jobs))
    recs, interruptions, kept, dev = [], 0, 0, 0
    for (name, un, ob, exe, w, steps, every, ps), (rc, err, out) in zip(jobs, res):
        if rc == 9 or rc < 0:
            c.violate("%s %s: %s (status %d)" % (name, w, err.strip() or "killed", rc), {"config": name, "workload": w, "status": rc})
            continue
        if rc == 8 and "CRASH" in err:
            c.violate("%s %s: the interrupted program crashed" % (name, w), {"config": name, "workload": w, "status": rc})
            continue
        if rc:
            raise CheckError("%s %s: status %d %s" % (name, w, rc, err))
        ops = [json.loads(l) for l in open(out)]
        if "disturbed" in err:
            c.log(name, w, err.strip())
        for q in ops:       # TLC's integers have 32 bits
            for f in ("skip", "depth", "size", "n", "len", "room", "steps", "deviations", "mismatches", "disturbed", "records"):
                if f in q:
                    q[f] = min(q[f], 10 ** 9)
        tramp = []
        for q in ops:
            if q["kind"] == "sum":
                interruptions += q["steps"]
                dev += q["deviations"]
                t = int(q["tramp"], 16)
                tramp = ["%x" % t, "%x" % (t - 1)]
        kept += sum(q["kind"] == "at" for q in ops)
        for i in range(0, len(ops), 60):
            recs.append({"config": name, "what": w, "unwind": bool(un), "object": bool(ob), "tramp": tramp, "ops": ops[i:i + 60]})
        c.coverage["%s %s" % (name, w)] = len(ops)
    c.log("%d interruptions, %d told from the unwinder's own walk, %d recorded" % (interruptions, dev, kept))
    if interruptions < 500000:
        raise CheckError("only %d interruptions" % interruptions)
    c.coverage["interruptions"] = interruptions
    c.coverage["recorded"] = kept
    c.sample([q for r in recs for q in r["ops"] if q["kind"] == "at"][kept // 2])
    tlc_traces(c, "TraceSafe", recs, name="TraceSafe", heap="8g",
               describe=lambda rec, j: rec["config"] + " " + rec["what"] + " " + json.dumps(rec["ops"][j - 1])[:1200])


main("C15", body)
