"""Symbols of the specification and answers of the library about them."""
import sys, os, json, random, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANTS Independent Emit\nCONSTANTS\n TapeLen = %d\n"


def symbols(c, runs, depth, timeout=700):
    """Symbols from `runs` simulations of MCSymbols in parallel."""
    def one(i):
        return tlc("MCSymbols", CFG % [60, 30, 90, 45][i % 4], simulate="num=1", workers=1, sd=seeds[i],
                   depth=depth, timeout=timeout, name="MCSymbols%d" % i)
    seeds = [c.rng.randrange(1, 10 ** 6) for _ in range(runs)]
    out, seen, results = [], set(), []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(runs)):
            if not r.ok:
                raise CheckError("the symbol model breaks its own laws: " + r.out[-3000:])
            results.append(r)
            for l in r.out.split("\n"):
                if l.startswith('"CASE '):
                    x = json.loads(json.loads(l)[5:])
                    if x["m"] not in seen:
                        seen.add(x["m"])
                        out.append(x)
    if len(out) < runs * depth // 3:
        raise CheckError("only %d symbols generated" % len(out))
    for r in results:
        c.add_tlc("MCSymbols", r, traces=0)
    return out


def ask(c, exe, d, reqs, what):
    """Answers; a crash or hang is a violation attributed to its request."""
    ans, start = [], 0
    for _ in range(4):
        inp, outp = os.path.join(d, "q.in"), os.path.join(d, "q.out")
        with open(inp, "w") as f:
            for q in reqs[start:]:
                f.write(json.dumps({"f": q[0], "s": q[1]}) + "\n")
        open(outp, "w").close()
        try:
            p = sh([exe, inp, outp], cwd=d, check=False, timeout=200)
        except subprocess.TimeoutExpired:
            p = sh(["true"])
            p.returncode, p.err = "timeout", "no answer within 200 s"
        ans += [json.loads(l) for l in open(outp).read().split("\n")[:-1]]
        if p.returncode == 0 and len(ans) == len(reqs):
            return ans
        q = reqs[len(ans)]
        c.violate("%s: %s crashed or hung (status %s) on %s: %s" % (what, q[0], p.returncode, json.dumps(q[1])[:600], p.err[-1500:]),
                  {"function": q[0], "input": q[1]})
        ans.append(None)
        start = len(ans)
    return ans + [None] * (len(reqs) - len(ans))


TOKENS = ["a", "b1", "::", "<", ">", "(", ")", "operator", "operator ", "*", "&", "&&", " const", " ", "'", "\"", "{", "}", "[", "]",
          ",", "5", "~", "#", "lambda", "-", ">>", "==", "`", "anonymous namespace", "(anonymous namespace)", "class ", "struct ", "std::",
          "std::__cxx11::", "std::__1::", "basic_string<char", "basic_string_view<char", ", std::allocator<", "> >", "\\", "\"\\x", "'\\",
          "'unnamed'", "{lambda", "unnamed type#1", "new", "[abi:", "decltype", "unsigned ", " requires ", "...", "$_0", "_Z3foov",
          "[clone .cold]", "\t", "\u00e9", "0x", "1e", "'a'", "operator<", "operator>", "operator()", "auto", "noexcept", "decltype(auto) "]


def mangle_strings(rng, cases, n):
    """Arbitrary strings: token soup, and spellings of symbols with random edits."""
    res = []
    keys = [k for k in ("gnu", "llvm", "msvc", "msvck", "m")]
    for _ in range(n):
        x = rng.random()
        if x < .4:
            res.append("".join(rng.choice(TOKENS) for _ in range(rng.randint(0, 14))))
            continue
        s = rng.choice(cases)[rng.choice(keys)][:300]
        for _ in range(rng.randint(1, 4)):
            i, j, y = rng.randint(0, len(s)), rng.randint(0, len(s)), rng.random()
            if y < .3:
                s = s[:i] + rng.choice(TOKENS) + s[i:]
            elif y < .6:
                s = s[:i] + s[i + rng.randint(1, 3):]
            elif y < .7:
                s = s[:i]
            elif y < .8:
                s = s[i:]
            elif y < .9:
                s = s[:i] + s[min(i, j):max(i, j)][:100] + s[i:]
            else:
                s = s[:i] + rng.choice(cases)["gnu"][:200][j:]
        res.append(s)
    return res
