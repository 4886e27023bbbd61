"""C05: CPPTRACE_TRY/CATCH and try_catch select handlers, destroy objects and propagate like the language."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from exclib import *

OPS = ["throw", "rethrow", "crethrow", "raise", "craise", "save", "call", "obj", "run", "thread", "ret", "mut"]


def body(c):
    d = workdir("c05")
    lists = all_lists(c.rng, pick(20, 60))
    every = range(len(lists))
    idx = lambda l: lists.index(l)
    cfgs = [Config("exc-O0", symbols="NOTHING", std="c++17", extra=["-rdynamic"]),
            Config("exc-O2", symbols="NOTHING", flags=["-g", "-O2", "-DNDEBUG"], std="c++20"),
            Config("exc-clang", symbols="NOTHING", cxx="clang++", flags=["-g", "-O1"], std="c++17", unwind="LIBUNWIND")]
    if thorough():
        cfgs += [Config("exc-shared", symbols="NOTHING", std="c++17", shared=True, flags=["-g", "-O1", "-fPIC"]),
                 Config("exc-ubsan", symbols="NOTHING", std="c++17", flags=["-g", "-O1"] + ASAN)]
    hd = workdir("c05-include")
    open(os.path.join(hd, "exc_lists.hpp"), "w").write(header(lists))
    ex = concurrent.futures.ThreadPoolExecutor(4)
    builds = [ex.submit(lambda g=g: build_exe(build_lib(g), "exc", ["exc_driver.cpp"], extra=["-I" + hd] + (["-fno-reorder-blocks-and-partition"] if g.cxx == "g++" else []), links=["-rdynamic"])) for g in cfgs]
    # every handler list in every form against every thrown type
    qs = cases(c, "matrix", lists, THROWN, every, ["plain", "macro", "tc"], ["throw"], 2, maxdepth=2)
    # all short programs over small alphabets
    small = [idx([("int", "v")]), idx([("B", "r"), ("...", "v")])]
    qs += cases(c, "short", lists, ["int", "D"], small, ["macro", "tc"], ["throw", "rethrow", "crethrow", "obj", "run", "call", "ret", "mut"], pick(4, 5))
    qs += cases(c, "nested", lists, ["int"], [idx([("int", "v")])], ["macro", "tc"], ["throw", "rethrow", "crethrow", "obj", "run", "mut"], pick(5, 6))
    # long programs over everything
    for i, (n, mx) in enumerate([(pick(1200, 20000), 10), (pick(1000, 15000), 22), (pick(400, 5000), 45)]):
        use = c.rng.sample(list(every)[64:], min(pick(12, 16), len(lists) - 64)) + c.rng.sample(range(64), 8) + [0]
        qs += cases(c, "random%d" % mx, lists, c.rng.sample(THROWN, 10) + ["D", "int"], sorted(set(use)), ["plain", "macro", "tc"], OPS, mx, 9 + mx // 4,
                    simulate="num=%d" % n, depth=mx * 2 + 20)
    quirky = [q for q in qs if q["quirk"]]
    c.coverage.update({"programs": len(qs), "programs_with_throwing_try_catch_handler": len(quirky)})
    if len(qs) < 20000 or len(quirky) < 20:
        raise CheckError("too few programs: %d, %d" % (len(qs), len(quirky)))
    for q in qs[::len(qs) // 5]:
        c.sample({"program": strip(q["tape"]), "log": q["log"]})
    # known finding: the language would not let the later handlers of the same try_catch see the exception
    c.violate("a try_catch handler's exception is caught by a later handler of the same try_catch: %s" % strip(quirky[0]["tape"]),
              quirky[0], key="try_catch-handler-throw")
    for g, b in zip(cfgs, builds):
        exe = b.result()
        replay(c, exe, d, g.name, qs)
        c.traces += len(qs)
        c.log(g.name, len(qs), "programs run")


main("C05", body)
