"""Case material shared by the formatter checks."""
import json, os
from vlib import *

Y, G, B, RST = "\x1b[33m", "\x1b[32m", "\x1b[34m", "\x1b[0m"
SYMS = ["main", "", "__cxa_throw", "_CxxThrowException", "CxxThrowException", "foo()", "ns::foo<int, char>(std::vector<int, std::allocator<int> > const&)",
        "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::size() const",
        "void A::B<C<D> >::operator()<int>(int) const", "(anonymous namespace)::run(int*)", "main::{lambda(int)#1}::operator()(int) const",
        "class Foo", "__cxa_throw_bad_array_new_length", "x__cxa_throw", "_Z3fooi", "a,b , c", "S<int>::~S()", "operator new[](unsigned long)",
        "%s {} {}%n", "\u00e9t\u00e9"]
FILES = {
    "src/a.cpp": "int a;\n\n  int b = 1;\r\n\treturn b;\n\n\n}\n",
    "src/one.cpp": "single line without newline",
    "empty.h": "",
    "blank.h": "\n\n\n   \n\n",
    "deep/er/tree/file.with.dots.cc": "\n".join("line %d" % i for i in range(1, 130)) + "\n",
    "u.c": "\r\n\r\nint main(void) { return 0; } // \u00e9\r\n\r\n",
}
MISSING = ["gone.c", "/abs/none/x.cpp", "c:\\win\\y.cpp", "mixed/sep\\z.h", "trail/", "", "src"]


def write_files(d):
    for f, text in FILES.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="", encoding="utf-8") as h:
            h.write(text)


def env_record(exe, d, syms):
    inp, outp = os.path.join(d, "syms.in"), os.path.join(d, "syms.out")
    allsyms = sorted(set(syms) | {s + "!" for s in syms} | {"__cxa_throw", "", "!"})
    with open(inp, "w") as f:
        for s in allsyms:
            f.write(json.dumps({"s": s}) + "\n")
    sh([exe, "syms", inp, outp], cwd=d)
    table = {}
    for line in open(outp):
        v = json.loads(line)
        table[v["s"]] = {"pruned": v["pruned"], "pretty": v["pretty"]}
    files = {}
    for f in list(FILES) + MISSING:
        files[f] = {"ok": f in FILES, "raw": FILES.get(f, "").split("\n")}
    return {"syms": table, "files": files, "yellow": Y, "green": G, "blue": B, "reset": RST}


def rand_hex(rng):
    r = rng.random()
    if r < 0.15:
        return "0"
    if r < 0.25:
        return "ffffffffffffffff"
    return "%x" % rng.getrandbits(rng.choice([4, 12, 32, 47, 64]))


def rand_frame(rng, syms=SYMS):
    f = rng.choice(list(FILES) + MISSING)
    r = rng.random()
    if r < 0.15:
        line = ""
    elif r < 0.8:
        line = str(rng.randint(0, FILES.get(f, "\n\n\n").count("\n") + 3))
    else:
        line = str(rng.choice([1, 10, 100, 128, 131, 99999, 4294967294, 2000000000]))
    col = "" if rng.random() < 0.4 else str(rng.choice([0, 1, 2, 3, 9, 40, 4294967294]))
    ln = int(line) if line and int(line) < 2 ** 31 else -1
    cn = int(col) if col and int(col) < 1000 else -1
    if col == "4294967294":
        line, ln = "", -1   # a caret 4 billion columns out is not interesting
    if line and ln < 0:
        f = "gone.c"        # lines beyond TLC's integers only where no snippet can be shown
    return {"raw": rand_hex(rng), "obj": rand_hex(rng), "line": line, "col": col, "lineN": ln, "colN": cn, "file": f,
            "sym": rng.choice(syms), "inl": rng.random() < 0.2}


SETTINGS = {
    "header": ["", "H", "Stack trace (most recent call first):", "two\nlines", "%d{}"],
    "colors": ["always", "none", "automatic"],
    "addr": ["raw", "object", "none"],
    "paths": ["full", "basename"],
    "snippets": [True, False],
    "ctx": [0, 1, 2, 3, 5, 100],
    "columns": [True, False],
    "symbols": ["full", "pretty", "pruned"],
    "placeholders": [True, False],
    "filter": ["none", "all", "nothing", "sym", "bang", "noinline", "line", "file", "notmain"],
    "transform": ["none", "bang", "nofile", "nosym", "swap", "noline", "inline", "throwname"],
    "brk": [True, False],
    "hide": [True, False],
}


def rand_call(rng, d, members=True, maxframes=14):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 11, 12, maxframes])
    what = "frame" if rng.random() < 0.25 else "trace"
    if what == "frame":
        n = 1
    vias = ["format"] * 5 + ["ostream"] * 3 + ["cout", "file"]
    if members:
        vias += ["to_string", "stream_op"]
        if what == "trace":
            vias += ["print_member", "print_member_cout", "snippets_member", "snippets_member_cout"]
    via = rng.choice(vias)
    over = rng.choice([-1, -1, 0, 1])
    indent = 0
    if what == "frame" and via in ("format", "ostream", "file", "cout") and rng.random() < 0.4:
        indent, over = rng.choice([1, 3, 17]), rng.choice([0, 1])
    if via in ("stream_op", "print_member_cout", "snippets_member_cout"):
        over = -1
    q = {"what": what, "via": via, "over": over, "tty": via.endswith("cout") and rng.random() < 0.5, "indent": indent}
    syms = SYMS if rng.random() < 0.6 else SYMS[:8]
    return {"op": "call", "d": d, "q": q, "frames": [rand_frame(rng, syms) for _ in range(n)]}


def run_programs(exe, d, progs, c=None):
    """Run programs through the driver, adding out/ev to their calls. A crash of the driver is attributed to the
    program it was running."""
    inp, outp = os.path.join(d, "prog.in"), os.path.join(d, "prog.out")
    todo, done, crashes = list(progs), [], []
    while todo:
        with open(inp, "w") as f:
            for p in todo:
                f.write(json.dumps(p) + "\n")
        p = sh([exe, "run", inp, outp], cwd=d, check=False, timeout=300)
        lines = open(outp).read().split("\n")[:-1] if os.path.exists(outp) else []
        for prog, line in zip(todo, lines):
            res = iter(json.loads(line))
            for op in prog["ops"]:
                if op["op"] == "call":
                    x = next(res)
                    op["out"], op["ev"] = x["out"], x["ev"]
            done.append(prog)
        if p.returncode == 0 and len(lines) == len(todo):
            break
        crashes.append((todo[len(lines)], p.returncode, p.err[-1500:]))
        if p.returncode == 0 or len(crashes) > 5:
            break
        todo = todo[len(lines) + 1:]
    return done, crashes
