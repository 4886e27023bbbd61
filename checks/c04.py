"""C04: the current-exception and rethrow traces follow the throws that cpptrace blocks of the thread have seen."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from exclib import *

OPS = ["throw", "rethrow", "crethrow", "raise", "craise", "save", "call", "obj", "run", "thread", "q", "qr", "clear", "ret"]


def body(c):
    d = workdir("c04")
    lists = all_lists(c.rng, 16)
    idx = lambda l: lists.index(l)
    cfgs = [Config("cur-O0", symbols="NOTHING", std="c++17"),
            Config("cur-execinfo", symbols="LIBDL", flags=["-g", "-O2", "-DNDEBUG"], std="c++17", unwind="EXECINFO"),
            Config("cur-clang", symbols="NOTHING", cxx="clang++", flags=["-g", "-O1"], std="c++17", unwind="LIBUNWIND")]
    if thorough():
        cfgs += [Config("cur-shared", symbols="NOTHING", std="c++17", shared=True, flags=["-g", "-O1", "-fPIC"]),
                 Config("cur-asan", symbols="LIBDL", std="c++20", flags=["-g", "-O1"] + ASAN)]
    hd = workdir("c04-include")
    open(os.path.join(hd, "exc_lists.hpp"), "w").write(header(lists))
    ex = concurrent.futures.ThreadPoolExecutor(4)
    builds = [ex.submit(lambda g=g: build_exe(build_lib(g), "cur", ["exc_driver.cpp"], extra=["-I" + hd] + (["-fno-reorder-blocks-and-partition"] if g.cxx == "g++" else []), links=["-rdynamic"])) for g in cfgs]
    one = [idx([("int", "v")])]
    two = [idx([("int", "v")]), 0]
    # all short histories
    qs = cases(c, "histories", lists, ["int"], one, ["plain", "macro"], ["throw", "rethrow", "crethrow", "q", "clear"], pick(5, 6))
    qs += cases(c, "kinds", lists, ["int", "D"], [idx([("int", "v"), ("B", "r")]), idx([("int", "v"), ("...", "v")])], ["macro", "tc"],
                ["throw", "rethrow", "crethrow", "qr"], pick(4, 5))
    qs += cases(c, "threads", lists, ["int"], one, ["macro"], ["throw", "crethrow", "thread", "save", "raise", "craise", "q", "run"], pick(5, 6))
    for i, (n, mx) in enumerate([(pick(1200, 20000), 12), (pick(1000, 15000), 24), (pick(500, 6000), 60)]):
        use = [0] + one + c.rng.sample(range(64), 3) + c.rng.sample(range(64, len(lists)), 3)
        qs += cases(c, "random%d" % mx, lists, ["int", "D", "XR", "pD"], sorted(set(use)), ["plain", "macro", "tc"], OPS, mx, 6 + mx // 6,
                    simulate="num=%d" % n, depth=mx * 2 + 20)
    qs = [q for q in qs if any(x.startswith("q ") for x in q["log"])]
    c.coverage.update({"programs": len(qs), "queries": sum(x.startswith("q ") for q in qs for x in q["log"]),
                       "with_rethrow_trace": sum(any(x.endswith(" 1") and x.startswith("q ") for x in q["log"]) for q in qs)})
    if len(qs) < 10000:
        raise CheckError("too few programs: %d" % len(qs))
    for q in qs[::len(qs) // 5]:
        c.sample({"program": strip(q["tape"]), "log": q["log"]})
    for g, b in zip(cfgs, builds):
        exe = b.result()
        replay(c, exe, d, g.name, qs)
        c.traces += len(qs)
        c.log(g.name, len(qs), "programs run")


main("C04", body)
