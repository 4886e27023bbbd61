"""C06: traced exception objects, for every history of constructing, copying, throwing and asking."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

KINDS = ["logic", "domain", "invalid", "length", "oor", "runtime", "range", "overflow", "underflow", "with_message", "derived",
         "derived_lazy", "lazy", "system", "nested"]
CAUSES = {"rt": ("std", "rt text"), "empty": ("std", ""), "std_like": ("std", "std_like says"), "int": ("other", "int"),
          "charptr": ("other", "char const*"), "plain": ("other", "plain_thing"), "string":
          ("other", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"),
          "tmpl": ("other", "tmpl_thing<std::vector<int, std::allocator<int> > >"), "nullptr": ("other", "decltype(nullptr)")}
ARGS = ["", "m", "a message", ":\n", "line\nline", "a\0b", "\0", "%s {} %n", "\u00e9\u4e2d", "x" * 3000, " ", "Stack trace (most recent call first):"]
ERRS = [0, 1, 2, 4, 11, 110, 9999, -1]


def new(rng, d, depth, kind=None):
    kind = kind or rng.choice(KINDS + ["system", "nested", "nested", "system"])
    raw = rng.choice(ARGS)
    if kind == "system":
        raw = raw.replace("\0", "")
    cause = rng.choice(sorted(CAUSES)) if kind == "nested" else ""
    code = rng.choice(ERRS) if kind == "system" else 0
    return {"op": "new", "d": d, "kind": kind, "rawarg": raw, "arg": "" if kind in ("lazy", "nested") else raw.split("\0")[0],
            "code": code, "errtext": os.strerror(code) if kind == "system" else "", "cause": cause,
            "ckind": CAUSES[cause][0] if cause else "", "cdesc": CAUSES[cause][1] if cause else "", "depth": depth,
            "thread": rng.random() < 0.1, "given": rng.choice([""] * 8 + ["empty", "here", "odd"])}


def looks(rng, d, all_=False):
    out = [{"op": x, "d": d} for x in ("message", "what", "trace", "code", "cause")]
    rng.shuffle(out)
    return out if all_ else out[:rng.choice([1, 1, 2, 3])]


def program(rng, length):
    ops, kinds = [], {}
    depth = 0
    for _ in range(length):
        k = rng.choice(["new"] * 4 + ["copy"] * 2 + ["move", "assign", "assign", "massign", "throw", "throw", "ptr", "thread", "self", "self",
                       "mself", "drop", "wrap", "wrap", "wrapt"] + ["look"] * 7)
        d, s = rng.randint(1, 12), rng.choice(sorted(kinds)) if kinds else 0
        if k == "new":
            depth += 1
            o = new(rng, d, depth)
            kinds[d] = o["kind"]
            ops.append(o)
        elif k == "wrap" or (k == "wrapt" and not s):
            depth += 1
            cause = rng.choice(sorted(CAUSES))
            ops.append({"op": "wrap", "d": d, "s": 0, "traced": False, "form": rng.choice(["block", "expr"]), "cause": cause,
                        "ckind": CAUSES[cause][0], "cdesc": CAUSES[cause][1], "depth": depth})
            kinds[d] = "nested"
        elif not s:
            continue
        elif k == "wrapt":
            depth += 1
            ops.append({"op": "wrap", "d": d, "s": s, "traced": True, "form": rng.choice(["block", "expr", "nested"]), "cause": "",
                        "ckind": "", "cdesc": "", "depth": depth})
            kinds[d] = kinds[s]
        elif k in ("copy", "move"):
            if k == "move" and d == s:
                continue
            ops.append({"op": k, "d": d, "s": s})
            kinds[d] = kinds[s]
            if k == "move":
                del kinds[s]
        elif k in ("assign", "massign", "self", "mself"):
            same = [x for x in kinds if kinds[x] == kinds[s] and x != s]
            if k in ("self", "mself"):
                if k == "mself":      # self-move leaves standard strings unspecified; only the trace-only kinds are defined
                    continue
                d = s
            elif same:
                d = rng.choice(same)
            else:
                continue
            ops.append({"op": "assign" if k in ("assign", "self") else "massign", "d": d, "s": s})
            if k == "massign":
                del kinds[s]
        elif k in ("throw", "ptr", "thread"):
            ops.append({"op": k, "d": d, "s": s, "look": rng.random() < 0.5})
            kinds[d] = kinds[s]
        elif k == "drop":
            ops.append({"op": "drop", "d": s})
            del kinds[s]
        else:
            ops += looks(rng, s)
    for s in sorted(kinds):
        if rng.random() < 0.7:
            ops += looks(rng, s, True)
    ops.append({"op": "wrapok"})
    return ops


def run(c, exe, d, progs, what):
    """Answers merged into the programs' operations, as trace records; None after a crash (reported)."""
    inp, outp = os.path.join(d, what + ".in"), os.path.join(d, what + ".out")
    flat = []
    with open(inp, "w") as f:
        for p in progs:
            for o in [{"op": "reset"}] + p:
                f.write(json.dumps(o) + "\n")
                flat.append(o)
    if os.path.exists(outp):
        os.unlink(outp)
    p = sh([exe, inp, outp], cwd=d, check=False, timeout=600, env={"ASAN_OPTIONS": "detect_leaks=0"})
    ans = open(outp, encoding="utf-8", errors="surrogateescape").read().split("\n")[:-1] if os.path.exists(outp) else []
    if p.returncode != 0 or len(ans) != len(flat):
        n = min(len(ans), len(flat) - 1)
        lo = max(i for i in range(n + 1) if flat[i]["op"] == "reset")
        c.violate("%s: crash (status %s) at %s after %s: %s" % (what, p.returncode, json.dumps(flat[n])[:200],
                  [(o["op"], o.get("d"), o.get("s")) for o in flat[lo + 1:n]][-15:], p.err[-1200:]), flat[lo:n + 1])
        return None
    recs, i = [], 0
    for pr in progs:
        i += 1
        ops = []
        for o in pr:
            r = dict(o)
            r.update(json.loads(ans[i]))
            r.pop("id")
            r.pop("rawarg", None)
            ops.append(r)
            i += 1
        recs.append({"ops": ops})
    return recs


def body(c):
    d = workdir("c06")
    lbt = dict(symbols="LIBBACKTRACE")
    builds = [(Config("asan-lbt", flags=["-g", "-O0"] + ASAN, **lbt), 0, pick(70, 400)),
              (Config("opt-lbt", flags=["-g", "-O2"], **lbt), 1, pick(70, 400)),
              (Config("clang-opt-a2l", cxx="clang++", flags=["-g", "-O2"]), 1, pick(3, 12)),
              (Config("a2l", flags=["-g", "-O0"]), 0, pick(3, 12)),
              (Config("none", flags=["-g", "-O0"], unwind="NOTHING", symbols="NOTHING", demangle="NOTHING"), 1, pick(20, 60))]
    exes = [build_exe(build_lib(b[0]), "traced", ["traced_driver.cpp"], extra=["-std=c++17"]) for b in builds]
    c.log("built")
    # 1. every short history
    cfg = "SPECIFICATION Spec\nINVARIANTS Agree Emit\nCONSTANTS\n Objs = {1, 2}\n Kinds = {%s}\n Depth = %d\n EmitOn = %s\n"
    r = tlc("MCTraced", cfg % ('"logic", "system", "nested"', pick(5, 6), "FALSE"), name="MCTraced-mechanism")
    if not r.ok:
        raise CheckError("the exception object model breaks its own invariants: " + r.out[-3000:])
    c.add_tlc("MCTraced mechanism vs values", r)
    r = tlc("MCTraced", cfg % ('"logic"', pick(4, 5), "TRUE"), name="MCTraced-cases")
    cases = [json.loads(json.loads(l)[5:]) for l in r.out.split("\n") if l.startswith('"CASE ')]
    if not r.ok or len(cases) < 500:
        raise CheckError("only %d model cases: %s" % (len(cases), r.out[-2000:]))
    c.rng.shuffle(cases)
    n_cases = len(cases)
    cases = cases[:pick(1200, 20000)]
    progs = []
    for h in cases:
        p, kinds, depth = [], {}, 0
        kind = c.rng.choice(KINDS)
        for o in h:
            if o["op"] == "new":
                depth += 1
                x = new(c.rng, o["d"], depth, kind)
                x["thread"] = False
                p.append(x)
                kinds[o["d"]] = 1
            else:
                p.append({"op": o["op"], "d": o["d"], "s": o["s"], "look": False})
                if o["op"] in ("move", "massign"):
                    kinds.pop(o["s"], None)
                if o["op"] not in ("what", "trace"):
                    kinds[o["d"]] = 1
        for s in kinds:
            p += looks(c.rng, s, True)
        progs.append(p)
    recs = run(c, exes[0], d, progs, "histories")
    if recs is not None:
        tlc_traces(c, "TraceTraced", recs, name="TraceTraced-histories", describe=lambda r, j: json.dumps([
            {k: v for k, v in o.items() if v not in ("", False, 0) and k not in ("errtext", "ckind")} for o in r["ops"][:j]])[-1400:])
        c.add_tlc("MCTraced histories", r, traces=len(cases))
    c.coverage["model_histories"] = n_cases
    c.coverage["replayed_model_histories"] = len(cases)
    c.log("histories replayed")
    # 2. random long programs on every build
    for (cfg_, noline, n), exe in zip(builds, exes):
        progs = [[{"op": "cat"}]] + [program(c.rng, c.rng.choice([5, 12, 25, 40])) for _ in range(n)]
        for p in progs:
            for o in p:
                if o["op"] == "new" and noline:
                    o["noline"] = True
                if cfg_.name == "none" and o["op"] in ("new", "wrap"):  # without unwinding all traces are empty, and alike
                    o["given"] = ""
                if cfg_.name == "none" and o.get("ckind") == "other":   # without demangling the types have their raw names
                    o["cdesc"] = {"int": "i", "charptr": "PKc", "plain": "11plain_thing", "nullptr": "Dn",
                                  "string": "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                                  "tmpl": "10tmpl_thingISt6vectorIiSaIiEEE"}[o["cause"]]
        recs = run(c, exe, d, progs, cfg_.name)
        if recs is None:
            continue
        if cfg_.name == "none":   # every trace is the empty trace
            for rr in recs:
                for o in rr["ops"]:
                    if "org" in o:
                        o["org"] = min(o["org"], 1)
        tlc_traces(c, "TraceTraced", recs, name="TraceTraced-" + cfg_.name, describe=lambda r, j: json.dumps([
            {k: v for k, v in o.items() if v not in ("", False, 0) and k not in ("errtext", "ckind")} for o in r["ops"][:j]])[-1400:])
        if cfg_.name == "opt-lbt":
            c.sample({"recorded": recs[3]["ops"][:5]})


main("C06", body)
