"""C10: pruning a symbol keeps its qualified name, for every symbol of the specification, and is harmless on any string."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symlib import *


def body(c):
    d = workdir("c10")
    exe = build_exe(build_lib(Config("asan", flags=["-g", "-O1"] + ASAN)), "sym", ["sym_driver.cpp"])
    c.log("built")
    cases = symbols(c, pick(7, 14), pick(2500, 15000))
    c.coverage["symbols"] = len(cases)

    # 1. every spelling of every symbol prunes to its qualified name
    reqs, want = [], []
    for i, x in enumerate(cases):
        for dl in ("gnu", "llvm", "msvc", "msvck"):
            if dl == "msvck" and "operator class " in x[dl]:
                continue  # the class key of a converted-to type is left in place
            q = x["qmsvc" if dl == "msvck" else "q" + dl]
            reqs.append(("prune", x[dl]))
            want.append(q)
            if dl in ("gnu", "llvm") and i % 5 == 0:
                # compilers' clones of a function carry a suffix
                reqs.append(("prune", x[dl] + c.rng.choice([" [clone .cold]", " [clone .isra.0]", " [clone .part.3] [clone .cold]"])))
                want.append(q)
            if i % 7 == 0:
                reqs.append(("fprune", x[dl]))
                want.append("in " + q)
        # a mangled name is left alone
        if i % 11 == 0:
            reqs.append(("prune", x["m"]))
            want.append(x["m"])
    # symbols with a great many, very long or deeply nested template arguments and parameters
    for i in range(pick(150, 1500)):
        x = c.rng.choice(cases)
        dl = c.rng.choice(["gnu", "llvm"])
        y, n = c.rng.choice(cases)[dl], c.rng.randint(1, 60)
        y = c.rng.choice(["int", "S::x const&", "(anonymous namespace)::T*", "std::vector<int>", "void (*)(int, char const*)",
                          "int (S::*)(long) const", "char (&) [5]", "S{5 > 3}", "(5 > 3)", "{lambda(S<1>)#1}", "'lambda'(S<(1 > 0)>)", "S{1, (2 < 3)}", "decltype (x)"])
        t = "S<" * n + ", ".join([y] * c.rng.randint(1, 40)) + (" >" * n if dl == "gnu" else ">" * n)
        s, q = c.rng.choice([("a::b<%s>::c(%s)", "a::b::c"), ("%s a::b<%s>(%s) const &", "a::b"), ("x<%s>::x(%s)", "x::x"),
                             ("x::operator()(%s) const", "x::operator()"), ("int N::f<%s>::~f()", "N::f::~f"),
                             ("void g(%s)::{lambda(%s)#2}::operator()(int) const", "g::<lambda#2>::operator()")])
        reqs.append(("prune", s % ((t,) * s.count("%s"))))
        want.append(q)
    ans = ask(c, exe, d, reqs, "prune_symbol")
    for q, w, a in zip(reqs, want, ans):
        if a is not None and a != w and len(c.violations) < 6:
            c.violate("%s of %s: expected %s got %s" % (q[0], q[1][:800], w, a), {"function": q[0], "input": q[1], "expected": w, "got": a})
    c.traces += len(reqs)
    c.coverage["replayed_spellings"] = len(reqs)
    c.sample({"symbol": cases[1]["gnu"], "name": cases[1]["qgnu"]})
    c.log("replayed %d spellings" % len(reqs))
    if c.violations:
        return

    # 2. any other string: harmless
    strs = mangle_strings(c.rng, cases, pick(6000, 60000))
    toks = ["a", "::", "<", ">", "(", ")", "operator", "*", "&", " ", "'", "\"", "{", "}", "[", ",", "5", "~", "-", "const", "`", "\\"]
    for a in toks:
        strs.append(a)
        for b in toks:
            strs.append(a + b)
            for e in toks:
                strs.append(a + b + e)
    reqs = [("prune", s) for s in strs]
    # nesting of any kind, and unterminated everything
    deep = []
    for o in ["(", "<", "[", "{", "f<", "f(", "`", "{lambda(", "'lambda'(", "operator ", "*", "::", "a::", "(*", "\"", "'", "\\\"", "x<(", "-", "&"]:
        for n in (10, 100, 2000):
            deep.append(o * n)
            deep.append("int f" + o * n + "x" + "".join({"(": ")", "<": ">", "[": "]", "{": "}"}.get(ch, "") for ch in reversed(o * n)))
    ans = ask(c, exe, d, reqs + [("prune", s) for s in deep], "prune_symbol")
    ops = [{"f": "prune", "s": s, "out": a} for s, a in zip(strs, ans) if a is not None and a != s]
    c.coverage["arbitrary_strings"] = len(reqs)
    c.coverage["arbitrary_strings_pruned"] = len(ops)
    c.log("%d of %d arbitrary strings changed" % (len(ops), len(reqs)))
    for s, a in zip(strs + deep, ans):
        if a == "" and s != "":
            c.violate("pruning %r gave nothing" % s[:300], {"input": s})
            return
    tlc_traces(c, "TraceStrings", [{"ops": ops[i:i + 40]} for i in range(0, len(ops), 40)], name="TraceStrings",
               describe=lambda r, j: json.dumps(r["ops"][j - 1])[:900])


main("C10", body)
