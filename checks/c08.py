"""C08: formatters are values. Every short history replayed, long random ones recorded and validated."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import fmtlib


def body(c):
    d = workdir("c08")
    exe = build_exe(build_lib(Config("asan", flags=["-g", "-O1"] + ASAN)), "fmt", ["fmt_driver.cpp"])
    c.log("built")
    fmtlib.write_files(d)

    # 1. every history of N operations over two formatters
    cfg = "SPECIFICATION Spec\nINVARIANTS Typed Emit\nPROPERTY Frame\nCONSTANTS Slots = {0, 1}\n N = %d\n Mode = \"bfs\"\n" % 4
    r = tlc("FormatterObjects", cfg, name="FormatterObjects", heap="8g")
    if not r.ok:
        raise CheckError("the formatter object model breaks its own invariants: " + r.out[-3000:])
    cases, table, base = [], {}, None
    for l in r.out.split("\n"):
        if l.startswith('"CASE '):
            cases.append(json.loads(json.loads(l)[5:]))
        elif l.startswith('"TABLE '):
            t = json.loads(json.loads(l)[6:])
            table[json.dumps(t["v"], sort_keys=True)] = t
            base = t
    if len(cases) < 50000 or len(table) < 4:
        raise CheckError("only %d histories" % len(cases))
    call = {"op": "call", "q": base["q"], "frames": base["frames"]}
    if not thorough():
        cases = c.rng.sample(cases, 80000)
    progs, wants = [], []
    for x in cases:
        ops = [{"op": "new", "d": 0}, {"op": "set", "d": 0, "key": "header", "val": "B"}, {"op": "new", "d": 1}]
        want = []
        for o in x["ops"]:
            if o["op"] == "call":
                ops.append(dict(call, d=o["d"]))
                want.append(o["v"])
            else:
                ops.append(o)
        for i, v in enumerate(x["fin"]):
            if v["h"] != "gone":
                ops.append(dict(call, d=i))
                want.append(v)
        # the shared formatters keep rendering with the default configuration
        if len(progs) % 7 == 0:
            ops.append(dict(call, d=-1))
            want.append({"h": "Stack trace (most recent call first):", "f": "none", "a": "raw"})
        progs.append({"ops": ops})
        wants.append(want)
    done, crashes = fmtlib.run_programs(exe, d, progs)
    for prog, rc, err in crashes:
        c.violate("the library crashed (status %s) in a formatter history: %s %s" % (rc, json.dumps(prog)[:700], err[-900:]), prog)
    if not crashes:
        for p, want in zip(done, wants):
            got = [o for o in p["ops"] if o["op"] == "call"]
            for g, w in zip(got, want):
                t = table[json.dumps(w, sort_keys=True)]["x"]
                if g["out"] != t["out"] or [e.split(":")[0] for e in g["ev"]] != [e.split(":")[0] for e in t["ev"]]:
                    if len(c.violations) < 5:
                        c.violate("after %s formatter %d should be %r but renders %r" % (
                            json.dumps([{k: v for k, v in o.items() if k not in ("frames", "q", "out", "ev")} for o in p["ops"]]), g["d"], w, g["out"]), p)
    c.add_tlc("FormatterObjects", r, traces=len(done))
    c.coverage["replayed_histories"] = len(done)
    c.sample({"case": cases[1234]})

    # 2. long random histories over four formatters and every setting
    env = fmtlib.env_record(exe, d, fmtlib.SYMS)
    progs = []
    for n in range(pick(500, 6000)):
        live, ops = set(), []
        for _ in range(c.rng.randint(6, 40)):
            dead = [x for x in range(4) if x not in live]
            k = c.rng.random()
            if not live or k < 0.08:
                x = c.rng.randrange(4)
                ops.append({"op": "new", "d": x})
                live.add(x)
            elif k < 0.40:
                key = c.rng.choice(list(fmtlib.SETTINGS))
                ops.append({"op": "set", "d": c.rng.choice(sorted(live)), "key": key, "val": c.rng.choice(fmtlib.SETTINGS[key])})
            elif k < 0.55:
                s = c.rng.choice(sorted(live))
                x = c.rng.choice([y for y in range(4) if y != s])
                ops.append({"op": "copy", "d": x, "s": s})
                live.add(x)
            elif k < 0.60:
                s = c.rng.choice(sorted(live))
                x = c.rng.choice([y for y in range(4) if y != s])
                ops.append({"op": "move", "d": x, "s": s})
                live.add(x)
                live.discard(s)
            elif k < 0.70:
                ops.append({"op": "assign", "d": c.rng.choice(sorted(live)), "s": c.rng.choice(sorted(live))})
            elif k < 0.76:
                x, s = c.rng.choice(sorted(live)), c.rng.choice(sorted(live))
                ops.append({"op": "massign", "d": x, "s": s})
                if x != s:
                    live.discard(s)
            else:
                ops.append(fmtlib.rand_call(c.rng, c.rng.choice(sorted(live) + [-1]), members=True, maxframes=5))
        for x in sorted(live):
            ops.append(fmtlib.rand_call(c.rng, x, members=False, maxframes=5))
        progs.append({"ops": ops})
    done, crashes = fmtlib.run_programs(exe, d, progs)
    for prog, rc, err in crashes:
        c.violate("the library crashed (status %s) in a formatter history: %s %s" % (rc, json.dumps(prog)[:700], err[-900:]), prog)
    tlc_traces(c, "TraceFormatter", done, {"env.ndjson": json.dumps(env) + "\n"}, name="TraceFormatter",
               describe=lambda rec, j: json.dumps([{k: v for k, v in o.items() if k not in ("frames", "out", "ev")} for o in rec["ops"][:j]])[-900:] + " -> " + json.dumps(rec["ops"][j - 1])[:500])
    c.sample({"recorded": [{k: v for k, v in o.items() if k not in ("frames",)} for o in done[0]["ops"]][:12]} if done else {})


main("C08", body)
