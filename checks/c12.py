"""C12: internal failures are absorbed or propagated as configured and reported once; messages go where they are sent."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CONFIGS = [Config("unw-a2l-O0"),
           Config("unw-bt-O2", flags=("-g", "-O2"), symbols="LIBBACKTRACE", extra=["-DCPPTRACE_BACKTRACE_X"]),
           Config("unw-dl-clang", cxx="clang++", symbols="LIBDL", dl="DLADDR1"),
           Config("luw-a2l-dladdr", unwind="LIBUNWIND", dl="NONE"),
           Config("exec-nothing", unwind="EXECINFO", symbols="NOTHING")]
OPS = ["raw_gen", "raw_gen2", "raw_cur", "obj_gen", "obj_cur", "st_gen", "st_cur", "raw_resolve", "raw_resolve_obj", "obj_resolve",
       "prune", "exc_ctor", "exc_trace", "try_capture"]


def build(cfg):
    build_lib(cfg)
    ex, ln = [], []
    if cfg.symbols == "LIBBACKTRACE":
        ex = ["-DWRAP_BACKTRACE"]
        ln = ["-Wl,--wrap=backtrace_pcinfo,--wrap=backtrace_syminfo,--wrap=backtrace_create_state"]
    try:
        return build_exe(cfg, "report", ["report_driver.cpp"], extra=ex, links=ln), True
    except CheckError:
        return build_exe(cfg, "report", ["report_driver.cpp"], extra=ex + ["-DNO_INTERNAL"], links=ln), False


def histories(c):
    r = tlc("MCReport", "SPECIFICATION Spec\nINVARIANT TypeOK Silent Monotone Out\nCONSTANTS Len0 = %d Emit = TRUE\n" % 3, name="MCReport",
            workers=1)
    if not r.ok:
        raise CheckError("MCReport: " + r.out[-2000:])
    c.add_tlc("MCReport", r)
    seen, hs = set(), []
    for l in r.out.splitlines():
        if l.startswith('"CASE '):
            t = json.loads(l)[5:]
            if t not in seen:
                seen.add(t)
                hs.append(json.loads(t))
    if not hs:
        raise CheckError("no histories")
    c.log("%d histories from the model" % len(hs))
    rng = c.rng
    alphabet = [{"op": "level", "v": v} for v in range(4)] + [{"op": "sink", "v": s} for s in ("A", "B", "stderr", "none", "empty")] + \
               [{"op": "absorb", "v": b} for b in (True, False)] + [{"op": "emit", "v": v} for v in range(4)] * 2 + \
               [{"op": "hard", "v": 0}, {"op": "soft", "v": 0}] * 2
    for _ in range(pick(700, 20000)):
        hs.append([rng.choice(alphabet) for _ in range(rng.randint(4, 24))])
    return hs


def body(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fb = [ex.submit(build, cfg) for cfg in CONFIGS]
        hs = histories(c)
        exes = [f.result() for f in fb]
    c.log("built")
    # ---- histories
    recs = []
    def run_hist(job):
        exe, internal, part = job
        lines = []
        for h in part:
            h2 = h if internal else [e for e in h if e["op"] != "emit"]
            if h2:
                lines.append(json.dumps(h2))
        if not lines:
            return []
        out = sh([exe, "hist"], input=("\n".join(lines) + "\n").encode(), timeout=600).out.splitlines()
        if len(out) != len(lines):
            raise CheckError("history driver gave %d answers to %d" % (len(out), len(lines)))
        return list(zip(lines, out))
    jobs = []
    for n in range(0, len(hs), 120):
        exe, internal = exes[(n // 120) % len(exes)]
        jobs.append((exe, internal, hs[n:n + 120]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for part in ex.map(run_hist, jobs):
            for line, out in part:
                rec = json.loads(out)
                if rec["kind"] == "crash":
                    c.violate("a history of reconfigurations and failures ended the process (%s): %s" % (rec["crash"], line), json.loads(line))
                else:
                    recs.append(rec)
    c.log("%d histories run" % len(recs))
    nh = len(recs)
    c.sample({"history": recs[len(recs) // 2]["events"][:4]})
    tlc_traces(c, "TraceReport", recs, name="TraceReport(histories)")

    # ---- failing steps
    def ask(cfg, exe, op, absorb, warm, mode, fault, ks):
        p = sh([exe, "fault", op, "1" if absorb else "0", "1" if warm else "0", mode, fault, ",".join(map(str, ks))], timeout=800, check=False)
        if p.returncode != 0:
            raise CheckError("fault driver: exit %d %s" % (p.returncode, p.err[-500:]))
        return [json.loads(l) for l in p.out.splitlines()]
    plan = []
    for cfg, (exe, _) in zip(CONFIGS, exes):
        for op in OPS:
            for fault in (["nomem", "pcinfo"] if cfg.symbols == "LIBBACKTRACE" else ["nomem"]):
                if fault == "pcinfo" and op not in ("st_gen", "st_cur", "raw_resolve", "obj_resolve", "exc_trace"):
                    continue
                plan.append((cfg, exe, op, fault))
    counted = {}
    def count(p):
        cfg, exe, op, fault = p
        out = {}
        for warm in (False, True):
            # addresses differ from process to process: the undisturbed run is asked of every process (k = 0 first)
            out[warm] = ask(cfg, exe, op, True, warm, "once", fault, [0])[0]
        return p, out
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for p, out in ex.map(count, plan):
            counted[(p[0].name, p[2], p[3])] = out
    rng = c.rng
    jobs = []
    for p in plan:
        cfg, exe, op, fault = p
        for warm in (False, True):
            steps = counted[(cfg.name, op, fault)][warm]["steps"]
            for absorb in (True, False):
                for mode in ("once", "persist"):
                    costly = cfg.symbols == "ADDR2LINE" and op in ("st_gen", "st_cur", "raw_resolve", "obj_resolve", "exc_trace", "exc_ctor")
                    lim = pick(8 if costly else 18, 400 if costly else 4000)
                    if mode == "persist":
                        lim = max(4, lim // 2)
                    ks = list(range(1, steps + 1))
                    if len(ks) > lim:
                        ks = sorted(set(ks[:lim // 3] + rng.sample(ks, lim - lim // 3)))
                    for i in range(0, len(ks), 40):
                        jobs.append((cfg, exe, op, absorb, warm, mode, fault, [0] + ks[i:i + 40]))
    rng.shuffle(jobs)
    frecs, unexplored = [], 0
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for job, out in zip(jobs, ex.map(lambda j: ask(*j), jobs)):
            clean = out[0]["got"]
            if len(out) != len(job[7]) or len(out[0]["paths"]) != len(clean):
                raise CheckError("fault driver: %s gave %d answers" % (job[2], len(out)))
            for r in out:
                r["paths"] = out[0]["paths"]    # what a frame falls back to when its own file is unknown
                r["config"] = job[0].name
                r["clean"] = clean
                frecs.append(r)
    fired = sum(1 for r in frecs if r["fired"])
    c.log("%d failing runs (%d with the failure hit)" % (len(frecs), fired))
    c.sample({"failing run": {k: frecs[0][k] for k in ("config", "op", "absorb", "warm", "mode", "fault", "k", "fired", "threw", "reports")}})
    chunks = [frecs[i::4] for i in range(4)]
    for n, part in enumerate(chunks):
        tlc_traces(c, "TraceReport", part, name="TraceReport(failures %d)" % n, describe=lambda r, j: json.dumps(
            {k: r[k] for k in ("config", "op", "absorb", "warm", "mode", "fault", "k", "steps", "threw", "reports", "texts", "crash")}))
    c.coverage.update(histories=nh, failing_runs=len(frecs), failures_hit=fired, operations=len(OPS), configurations=[x.name for x in CONFIGS])
    c.assumptions += ["failures are injected at the library's own allocations (operator new) and, with libbacktrace, at its error callback",
                      "formatting and printing are not guarded: a failure there reaches the caller like any other"]


main("C12", body)
