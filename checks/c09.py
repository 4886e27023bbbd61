"""C09: source snippets, for every file, line, column and context."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import fmtlib

HUGE = [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1]


def ask(c, exe, d, reqs):
    """Answers of the library; a crash is a violation attributed to the request."""
    inp, outp = os.path.join(d, "q.in"), os.path.join(d, "q.out")
    with open(inp, "w") as f:
        for q in reqs:
            f.write(json.dumps(q) + "\n")
    p = sh([exe, "snippets", inp, outp], cwd=d, check=False, timeout=600)
    ans = [json.loads(l) for l in open(outp).read().split("\n")[:-1]]
    if p.returncode != 0 or len(ans) != len(reqs):
        c.violate("the library crashed (status %s) on snippet request %s: %s" % (
            p.returncode, json.dumps(reqs[min(len(ans), len(reqs) - 1)]), p.err[-1500:]), reqs[len(ans):][:1])
        return None
    return [a.encode("latin-1").decode("utf-8", "surrogateescape") for a in ans]


def body(c):
    d = workdir("c09")
    exe = build_exe(build_lib(Config("asan", flags=["-g", "-O1"] + ASAN)), "fmt", ["fmt_driver.cpp"])
    c.log("built")

    # 1. every small file
    wrapper = "---- MODULE MCSnip ----\nEXTENDS MCSnippet\nPiecesV == {\"\", \"x\", \"\\r\", \" y\\r\"}\n====\n"
    cfg = ("SPECIFICATION Spec\nINVARIANTS Contiguous TargetShown Complete Tight Monotone ShowsNothing Emit\nCONSTANTS\n"
           " Pieces <- PiecesV\n MaxPieces = %d\n Targets = {0, 1, 2, 3, 4, 5, 6, 9}\n Ctxs = {0, 1, 2, 20}\n"
           " Cols <- ColsV\n EmitOn = TRUE\n" % pick(4, 5))
    r = tlc("MCSnip", cfg, {"MCSnip.tla": wrapper}, name="MCSnippet")
    if not r.ok:
        raise CheckError("the snippet model breaks its own invariants: " + r.out[-3000:])
    cases = [json.loads(json.loads(l)[5:]) for l in r.out.split("\n") if l.startswith('"CASE ')]
    if len(cases) < 5000:
        raise CheckError("only %d model cases" % len(cases))
    names, reqs = {}, []
    c.rng.shuffle(cases)
    for x in cases:
        key = tuple(x["raw"])
        if key not in names:
            names[key] = "m/f%d" % len(names)
            p = os.path.join(d, names[key])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as f:
                f.write("\n".join(key))
        ctx = x["c"] if x["c"] < 20 else c.rng.choice([20, 100] + HUGE)
        reqs.append({"file": names[key], "line": x["t"], "col": x["k"], "ctx": ctx, "ov": c.rng.randint(0, 1), "color": False})
    ans = ask(c, exe, d, reqs)
    if ans is not None:
        for x, q, a in zip(cases, reqs, ans):
            if a != x["out"] and len(c.violations) < 5:
                c.violate("snippet of %r: %r: expected %r got %r" % (x["raw"], q, x["out"], a), {"case": x, "request": q, "got": a})
        c.add_tlc("MCSnippet", r, traces=len(cases))
    c.coverage["replayed_model_cases"] = len(cases)
    c.sample({"case": cases[0]})

    # 2. random files and histories of requests
    files = []
    words = ["", "", " ", "\t", "int x = 1;", "}", "\r", "x\r", "\ry", "a\rb\r", "\u00e9\u4e2d", "%d{}\\", "z" * 300]
    for n in range(pick(40, 200)):
        k = c.rng.choice([0, 1, 2, 3, 7, 12, 40, 130, 1200])
        t = "\n".join(c.rng.choice(words) for _ in range(k + 1))
        files.append(t)
    # files whose line numbers outgrow every fixed width
    files += ["\n".join(c.rng.choice(words) for _ in range(k + 1)) for k in (1001, 10020, 100030)]
    big0 = len(files) - 3
    frec = []
    for i, t in enumerate(files):
        with open(os.path.join(d, "r%d.txt" % i), "w", newline="", encoding="utf-8") as f:
            f.write(t)
        frec.append({"name": "r%d.txt" % i, "ok": True, "raw": t.split("\n")})
    for name in ("missing.c", "", ".", "m", "r0.txt/x"):
        frec.append({"name": name, "ok": False, "raw": [""]})
    reqs, clamp = [], []
    for n in range(pick(3000, 30000)):
        i = c.rng.randrange(len(frec))
        if n % 30 == 0:
            i = big0 + n // 30 % 3
        elif i >= big0 and i < len(files):
            continue
        nl = len(frec[i]["raw"])
        t = c.rng.choice([0, 1, 2, nl - 1, nl, nl + 1, nl + 2, c.rng.randint(0, nl + 5), c.rng.randint(1, max(1, nl)), 10 ** 6, c.rng.choice(HUGE)])
        if nl > 1000:
            t = c.rng.choice([t, 10 ** (len(str(nl)) - 1) + c.rng.randint(-6, 6)])
        ctx = c.rng.choice([0, 1, 2, 3, 5, 10, 50, c.rng.randint(0, nl + 3), c.rng.choice(HUGE)])
        if nl > 200 and ctx > 60:
            ctx = 60
        reqs.append({"file": frec[i]["name"], "line": t, "col": c.rng.choice([-1, -1, 0, 1, 2, 3, 20, 400]), "ctx": ctx,
                     "ov": c.rng.randint(0, 1), "color": c.rng.random() < 0.4, "_i": i})
    ans = ask(c, exe, d, reqs)
    if ans is None:
        return
    big = 10 ** 9
    ops = []
    for q, a in zip(reqs, ans):
        t, ctx = q["line"], q["ctx"]
        # numbers beyond TLC's integers stand for the same situation: far beyond the file, window relative to them
        if t > big or ctx > big:
            if t > big and ctx <= big:
                t = big
            elif t <= big:
                ctx = big
            else:
                continue
        ops.append({"f": q["_i"] + 1, "t": t, "k": q["col"], "c": ctx, "color": q["color"], "out": a})
    recs = [{"yellow": fmtlib.Y, "reset": fmtlib.RST, "ops": ops[i:i + 25]} for i in range(0, len(ops), 25)]
    tlc_traces(c, "TraceSnippet", recs, {"files.ndjson": "".join(json.dumps(x) + "\n" for x in frec)},
               name="TraceSnippet", describe=lambda r, j: json.dumps(r["ops"][j - 1])[:600] + " of file with %d pieces" % len(frec[r["ops"][j - 1]["f"] - 1]["raw"]))
    c.sample({"recorded": ops[3]})


main("C09", body)
