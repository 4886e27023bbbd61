"""C11: prettify_symbol, demangle and basename rewrite exactly what they document."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symlib import *


def body(c):
    d = workdir("c11")
    exe = build_exe(build_lib(Config("asan", flags=["-g", "-O1"] + ASAN)), "sym", ["sym_driver.cpp"])
    c.log("built")
    cases = symbols(c, pick(7, 14), pick(2200, 12000))
    c.coverage["symbols"] = len(cases)

    # 1. every spelling prettifies to the specification's, which is a fixed point; mangled names demangle to theirs
    reqs, want = [], []

    def add(f, s, w):
        reqs.append((f, s))
        want.append(w)
    for i, x in enumerate(cases):
        # operators named with brackets make the brackets around standard arguments ambiguous
        for dl in ("gnu", "llvm", "msvck") if not (re.search(r"operator(->|[<>])", x["gnu"]) and "std::" in x["gnu"]) else ():
            add("pretty", x[dl], x["p" + dl])
            add("pretty", x["p" + dl], x["p" + dl])
            if i % 7 == 0:
                add("fpretty", x[dl], "in " + x["p" + dl])
        if len(x["m"]) > 1000:
            continue  # beyond the platform demangler's limit
        add("demangle", x["m"], x["gnu"])
        if i % 3 == 0:
            add("demangle", "_" + x["m"], x["gnu"])
            for suffix in (" [clone .cold]", " [clone .isra.0] [clone .part.1]", " (.cold)", " "):
                add("demangle", x["m"] + suffix, x["gnu"] + suffix)
                add("demangle", "_" + x["m"] + suffix, x["gnu"] + suffix)
        if i % 5 == 0:
            # what isn't a mangled name
            first = x["gnu"].split(" ")[0]
            if len(first) > 2 and not first.startswith("_Z"):
                add("demangle", x["gnu"], x["gnu"])
            for s in ("_z" + x["m"], "Z" + x["m"][2:], "_Z", "_ZN", " " + x["m"], "." + x["m"]):
                add("demangle", s, s)
    for s in ("", "main", "_start", "printf", "foo.cold", "_ZN3fooE_", "_Z3fo", "?f@@YAXXZ", "a.out", "??", "/usr/lib/x.so"):
        add("demangle", s, s)
    ans = ask(c, exe, d, reqs, "symbol functions")
    for q, w, a in zip(reqs, want, ans):
        if a is not None and a != w and len(c.violations) < 6:
            c.violate("%s of %s: expected %s got %s" % (q[0], q[1][:800], w[:800], a[:800]), {"function": q[0], "input": q[1], "expected": w, "got": a})
    c.traces += len(reqs)
    c.coverage["replayed_spellings"] = len(reqs)
    c.sample({"symbol": cases[1]["gnu"], "pretty": cases[1]["pgnu"]})
    c.log("replayed %d spellings" % len(reqs))

    # 2. arbitrary strings
    strs = [s for s in mangle_strings(c.rng, cases, pick(6000, 60000)) if "class class" not in s]
    ans = ask(c, exe, d, [("pretty", s) for s in strs], "prettify_symbol")
    ops = []
    for s, a in zip(strs, ans):
        if a is None:
            continue
        ops.append({"f": "pretty", "s": s, "out": a})
    # 3. paths, all short ones
    paths = [""]
    layer = [""]
    for n in range(pick(6, 8)):
        layer = [p + ch for p in layer for ch in ("a", "/", "\\", ".")]
        paths += layer
    paths += ["/usr/include/c++/13/bits/vector.tcc", "C:\\x y\\z.cpp", "C:/a\\b/c.h", "..", "a b/c d.e", "/\u00e9\u4e2d/\u00fc.c", "/" * 300 + "x", "x" * 4000]
    ans = ask(c, exe, d, [("basename", s) for s in paths], "basename")
    ops += [{"f": "basename", "s": s, "out": a} for s, a in zip(paths, ans) if a is not None]
    c.coverage["arbitrary_strings"] = len(strs)
    c.coverage["paths"] = len(paths)
    tlc_traces(c, "TraceStrings", [{"ops": ops[i:i + 40]} for i in range(0, len(ops), 40)], name="TraceStrings",
               describe=lambda r, j: json.dumps(r["ops"][j - 1])[:900])

    # 4. a name longer than the stack the regular expressions need
    plain = build_exe(build_lib(Config("plain", flags=["-g", "-O2"])), "sym", ["sym_driver.cpp"])
    inp, outp = os.path.join(d, "l.in"), os.path.join(d, "l.out")
    for s in ("std::" + "a" * 200000, " " * 200000, "x" * 200000 + "," + "y" * 200000, "f<" * 20000, "a::" * 60000 + "b"):
        with open(inp, "w") as f:
            f.write(json.dumps({"f": "pretty", "s": s}) + "\n")
        p = sh([plain, inp, outp], cwd=d, check=False, timeout=300)
        if p.returncode != 0:
            c.violate("prettify_symbol crashed (status %s) on a string of %d characters starting %r" % (p.returncode, len(s), s[:20]),
                      {"input": s[:20], "length": len(s)}, key="long-word" if s[:6] in ("std::a", "      ") else None)


main("C11", body)
