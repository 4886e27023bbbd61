"""C07: what a formatter writes, for every configuration, trace and destination."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import fmtlib

MC = """SPECIFICATION Spec
INVARIANTS Bounded Numbering Agree Callbacks ColorBalance ColorInvisible Emit
CONSTANTS
"""


def mc(c, name, emit, **k):
    d = dict(Pool="{1, 2, 3, 4}", MaxFrames="2", Addrs='{"raw", "object", "none"}', Paths='{"full", "basename"}',
             Symbols='{"full", "pruned"}', Cols="{TRUE, FALSE}", Brks="{TRUE, FALSE}", Hides="{TRUE, FALSE}",
             Placeholders="{TRUE, FALSE}", Transforms='{"none"}', Filters='{"none"}', Headers='{"H"}',
             Colors='{"none"}', Overs="{-1}", Snips="{FALSE}", EmitOn="TRUE" if emit else "FALSE")
    d.update(k)
    # TLC's configuration files know no negative numbers
    overs = d.pop("Overs")
    wrapper = "---- MODULE MCFmt ----\nEXTENDS MCFormatter\nOversV == %s\n====\n" % overs
    cfg = MC + "".join("  %s = %s\n" % kv for kv in d.items()) + "  Overs <- OversV\n"
    r = tlc("MCFmt", cfg, {"MCFmt.tla": wrapper}, name=name)
    if not r.ok:
        raise CheckError("the formatter model breaks its own invariants: " + r.out[-3000:])
    cases = []
    if emit:
        for line in r.out.split("\n"):
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
    return r, cases


SUBST = {"<Y>": fmtlib.Y, "<G>": fmtlib.G, "<B>": fmtlib.B, "<R>": fmtlib.RST}


def body(c):
    d = workdir("c07")
    cfg = build_lib(Config("asan", flags=["-g", "-O1"] + ASAN))
    exe = build_exe(cfg, "fmt", ["fmt_driver.cpp"])
    c.log("built")
    fmtlib.write_files(d)
    os.makedirs(os.path.join(d, "d"), exist_ok=True)
    with open(os.path.join(d, "d/a.cpp"), "w", newline="", encoding="utf-8") as f:
        f.write("\nint x;\r\n\r\n\n// \u00e9")

    # 1. exhaustive small domain: the model's own behaviours, replayed into the library
    runs = [("layout", dict(MaxFrames="2", Pool=pick("{1, 2, 3, 4}", "{1, 2, 3, 4, 5, 6}"))),
            ("callbacks", dict(Addrs='{"none"}', Paths='{"full"}', Symbols='{"full"}', Cols="{TRUE}", Brks="{FALSE}",
                               Headers='{"", "H"}', MaxFrames=pick("2", "3"), Pool="{1, 2, 3, 4}",
                               Transforms='{"none", "bang", "nofile", "nosym", "swap", "noline", "inline", "throwname"}',
                               Filters='{"none", "nothing", "sym", "noinline", "line", "file", "notmain"}')),
            ("colors", dict(Paths='{"full"}', Cols="{TRUE}", Hides="{FALSE}", Placeholders="{TRUE}",
                            Colors='{"always", "none", "automatic"}', Overs="{-1, 0, 1}", Snips="{TRUE, FALSE}",
                            Pool="{1, 3, 5, 6}", MaxFrames="2"))]
    total = mism = 0
    for name, k in runs:
        r, cases = mc(c, name, True, **k)
        progs = []
        for x in cases:
            ops = [{"op": "new", "d": 0}] + [{"op": "set", "d": 0, "key": a, "val": b} for a, b in x["o"].items()]
            ops.append({"op": "call", "d": 0, "q": x["q"], "frames": x["frames"]})
            progs.append({"ops": ops})
        done, crashes = fmtlib.run_programs(exe, d, progs)
        for prog, rc, err in crashes:
            c.violate("the library crashed (status %s) on a formatting call: %s" % (rc, err), prog)
        for x, p in zip(cases, done if not crashes else []):
            want = x["out"]
            for a, b in SUBST.items():
                want = want.replace(a, b)
            got = p["ops"][-1]
            if got["out"] != want or got["ev"] != x["ev"]:
                mism += 1
                if mism <= 5:
                    c.violate("formatter output differs: options %r call %r frames %r expected %r / %r got %r / %r" % (
                        x["o"], x["q"], x["frames"], want, x["ev"], got["out"], got["ev"]), x)
        total += len(cases)
        c.add_tlc("MCFormatter/" + name, r, traces=len(done))
        if cases:
            c.sample({"case": cases[len(cases) // 2]})
    if total < 1000:
        raise CheckError("the formatter model produced only %d cases" % total)
    c.coverage["replayed_model_cases"] = total

    # 2. larger random configurations and traces, every destination: recorded and validated by TLC
    env = fmtlib.env_record(exe, d, fmtlib.SYMS)
    progs = []
    for n in range(pick(700, 6000)):
        ops = [{"op": "new", "d": 0}]
        for key, vals in fmtlib.SETTINGS.items():
            if c.rng.random() < 0.5:
                ops.append({"op": "set", "d": 0, "key": key, "val": c.rng.choice(vals)})
        for _ in range(2):
            ops.append(fmtlib.rand_call(c.rng, -1 if c.rng.random() < 0.1 else 0, maxframes=c.rng.choice([13, 13, 101])))
        progs.append({"ops": ops})
    done, crashes = fmtlib.run_programs(exe, d, progs)
    for prog, rc, err in crashes:
        c.violate("the library crashed (status %s) on a formatting call: %s" % (rc, err), prog)
    tlc_traces(c, "TraceFormatter", done, {"env.ndjson": json.dumps(env) + "\n"}, name="TraceFormatter",
               describe=lambda rec, j: json.dumps({"settings": [(o["key"], o["val"]) for o in rec["ops"] if o["op"] == "set"],
                                                   "op": rec["ops"][j - 1]}))
    c.sample({"recorded": done[0]["ops"][-1] if done else None})


main("C07", body)
