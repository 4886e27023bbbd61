"""C13: the C API gives what the C++ API gives and owns exactly what it hands out, for every history of calls."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CONFIGS = [Config("unw-dl-O0", symbols="LIBDL", dl="DLADDR1"),
           Config("unw-a2l-O0"),
           Config("unw-bt-O2", flags=("-g", "-O2"), symbols="LIBBACKTRACE"),
           Config("luw-dl-clang", cxx="clang++", unwind="LIBUNWIND", symbols="LIBDL"),
           Config("unw-nothing-dladdr", symbols="NOTHING", dl="NONE"),
           Config("unw-dl-asan", flags=["-g", "-O1"] + ASAN, symbols="LIBDL", dl="DLADDR1")]


def histories(c):
    hs, seen = [], set()
    def take(r):
        for l in r.out.splitlines():
            if l.startswith('"CASE '):
                t = json.loads(l)[5:]
                if t not in seen:
                    seen.add(t)
                    hs.append(json.loads(t))
    props = "SPECIFICATION Spec\nINVARIANT TypeOK Balance Idempotent Out\nPROPERTY Stable\nCONSTANTS Len0 = %d Emit = %s Slots0 = %d\n"
    r = tlc("MCCApi", props % (2, "TRUE", 2), name="MCCApi(2)", workers=1)
    if not r.ok:
        raise CheckError("MCCApi: " + r.out[-2000:])
    c.add_tlc("MCCApi len 2", r)
    take(r)
    n2 = len(hs)
    r = tlc("MCCApi", props % (pick(3, 4), "FALSE", 3), name="MCCApi(3)", timeout=850)
    if not r.ok:
        raise CheckError("MCCApi: " + r.out[-2000:])
    c.add_tlc("MCCApi len %d" % pick(3, 4), r)
    for n, num in ((7, pick(800, 8000)), (12, pick(500, 4000))):
        # long histories: walks through the model, biased by dropping operations that create when many slots are held
        r = tlc("MCCApi", "SPECIFICATION Spec\nINVARIANT TypeOK Balance Out\nCONSTANTS Len0 = %d Emit = TRUE Slots0 = 6\n" % n,
                simulate="num=%d" % num, depth=n + 1, workers=1, name="MCCApi(sim)")
        if not r.ok:
            raise CheckError("MCCApi(sim): " + r.out[-2000:])
        c.add_tlc("MCCApi walks of %d" % n, r)
        # every last step of a walk is printed: keep a few of each
        first = len(hs)
        take(r)
        walks = {}
        for h in hs[first:]:
            walks.setdefault(json.dumps(h[:-1]), []).append(h)
        del hs[first:]
        for w in walks.values():
            hs += c.rng.sample(w, min(2, len(w)))
    c.log("%d histories from the model (%d exhaustive)" % (len(hs), n2))
    return hs


# calls whose every allocation is made to fail in turn, with what leads up to them
OOM = [[{"op": "gen", "a": a, "skip": 0, "depth": 3}] for a in range(3)] + \
      [[{"op": "user_raw", "a": 4}, {"op": o, "s": 1}] for o in ("resolve", "toobj")] + \
      [[{"op": "user_obj", "a": n}, {"op": "resolve", "s": 1}] for n in (2, 3)] + \
      [[{"op": "user_st", "a": n}, {"op": "str", "s": 1, "b": 1}] for n in (2, 5)] + \
      [[{"op": "text", "a": 3}], [{"op": "demangle", "a": 0}], [{"op": "null", "a": 0}], [{"op": "null", "a": 2}],
       [{"op": "user_raw", "a": 2}, {"op": "resolve", "s": 1}, {"op": "info", "s": 2, "a": 1}]]


def body(c):
    def build(cfg):
        build_lib(cfg)
        return build_exe(cfg, "capi", ["capi_driver.cpp"], extra=["-std=c++17"])
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fb = [ex.submit(build, cfg) for cfg in CONFIGS]
        hs = histories(c)
        exes = [f.result() for f in fb]
    c.log("built")
    def ask(exe, batch):
        p = sh([exe], input="".join(json.dumps(h) + "\n" for h in batch).encode(), timeout=800, check=False,
               env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"})
        out = p.out.splitlines()
        if p.returncode != 0 or len(out) != len(batch):
            raise CheckError("driver: exit %d, %d answers to %d: %s" % (p.returncode, len(out), len(batch), p.err[-800:]))
        return [json.loads(l) for l in out]
    rng = c.rng
    # how far each failing call can be made to fail
    fh = []
    for n, (cfg, exe) in enumerate(zip(CONFIGS, exes)):
        if "asan" in cfg.name:
            continue
        for h, r in zip(OOM, ask(exe, OOM)):
            if r["kind"] == "crash":
                c.violate("%s: the C API ended the process: %s: %s" % (cfg.name, json.dumps(h), r["err"][-300:]), h)
                continue
            ks = list(range(1, r["steps"][-1]["allocs"] + 1))
            lim = pick(14 if cfg.symbols == "ADDR2LINE" else 40, 400)
            if len(ks) > lim:
                ks = sorted(set(ks[:lim // 4] + ks[-lim // 4:] + rng.sample(ks, lim // 2)))
            fh += [(n, h[:-1] + [dict(h[-1], oom=k)]) for k in ks]
    # values the model abstracts from
    def vary(h):
        h = [dict(e) for e in h]
        for e in h:
            if e["op"] == "gen" and rng.random() < .4:
                e["skip"], e["depth"] = rng.randint(0, 5), rng.choice([-1, 0, 1, 2, 4])
            elif e["op"] == "user_raw":
                e["a"] = rng.randrange(5)
            elif e["op"] == "user_obj":
                e["a"] = rng.randrange(5)
            elif e["op"] == "user_st":
                e["a"] = rng.randrange(8)
            elif e["op"] == "info":
                e["a"] = rng.randrange(4)
            elif e["op"] == "text":
                e["a"] = rng.randrange(5)
            elif e["op"] == "demangle":
                e["a"] = rng.randrange(7)
            elif e["op"] == "config":
                e["a"] = rng.randrange(8)
        return h
    hs = hs + [vary(h) for h in hs if len(h) > 2] + \
        [[{"op": "user_st", "a": n}, {"op": o, "s": 1, "b": b}] for n in range(8) for o in ("str", "print") for b in (0, 1)] + \
        [[{"op": "user_obj", "a": n}, {"op": "resolve", "s": 1}] for n in range(5)] + \
        [[{"op": "user_raw", "a": n}, {"op": "resolve", "s": 1}, {"op": "toobj", "s": 1}, {"op": "resolve", "s": 3}] for n in range(5)] + \
        [[{"op": "demangle", "a": n}, {"op": "text", "a": n % 5}] for n in range(7)] + \
        [[{"op": "config", "a": n}, {"op": "user_raw", "a": 2}, {"op": "resolve", "s": 1}] for n in range(8)]
    rng.shuffle(hs)
    work = [[] for _ in CONFIGS]
    weights = [0, 0, 0, 0, 1, 2, 2, 3, 3, 3, 4, 5, 5]
    for n, h in enumerate(hs):
        work[weights[n % len(weights)]].append(h)
    for n, h in fh:
        work[n].append(h)
    jobs = [(n, w[i:i + 60]) for n, w in enumerate(work) for i in range(0, len(w), 60)]
    recs, crashes = [], 0
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for (n, batch), out in zip(jobs, ex.map(lambda j: ask(exes[j[0]], j[1]), jobs)):
            for h, r in zip(batch, out):
                r["config"] = CONFIGS[n].name
                if r["kind"] == "crash":
                    crashes += 1
                    if crashes <= 5:
                        c.violate("%s: the C API ended the process in call %d of %s: %s" % (CONFIGS[n].name, r["after"] + 1, json.dumps(h), r["err"][-400:]), h)
                else:
                    recs.append(r)
    calls = sum(len(r["steps"]) for r in recs)
    fired = sum(1 for r in recs if any(s["fired"] for s in r["steps"]))
    c.log("%d histories (%d calls, %d with memory running out)" % (len(recs), calls, fired))
    c.sample({"history": [[s["op"], s["s"], s["a"]] for s in recs[0]["steps"]], "config": recs[0]["config"]})
    def describe(r, n):
        s = r["steps"][min(n, len(r["steps"])) - 1] if n else {}
        return "%s: %s: %s" % (r["config"], json.dumps([{k: v for k, v in t.items() if k in ("op", "s", "a", "b", "skip", "depth", "oom") and v} for t in r["steps"]]),
                               json.dumps({k: v for k, v in s.items() if k != "slots"})[:600] + json.dumps(s.get("slots", [])[-1:])[:500])
    parts = [recs[i::6] for i in range(6)]
    for n, part in enumerate(parts):
        tlc_traces(c, "TraceCApi", part, name="TraceCApi(%d)" % n, describe=describe)
        if c.violations:
            break
    c.coverage.update(histories=len(recs), calls=calls, memory_ran_out=fired, configurations=[x.name for x in CONFIGS])
    c.assumptions += ["the C++ API's answers are the reference for frames, objects, symbols and text (they have their own properties)",
                      "a NULL output stream and NULL output buffers are not passed",
                      "how ctrace_print_stacktrace pads \"(inlined)\" and ends a bare address is left open"]


main("C13", body)
