"""Handler lists, generated try blocks and tape runs for C04 and C05."""
from vlib import *
CPP = {"int": "int", "uint": "unsigned", "long": "long", "char": "char", "bool": "bool", "dbl": "double", "en": "en",
       "ec": "ec", "nullp": "std::nullptr_t", "SE": "std::exception", "RT": "std::runtime_error",
       "CE": "cpptrace::exception", "CR": "cpptrace::runtime_error", "ppint": "int**", "fn": "fn", "fnx": "fnx"}
for t in ("B", "D", "E", "M", "MI", "V", "W", "VW", "X1", "X2", "AM", "PB", "NP", "XR"):
    CPP[t] = t
for p in ("pB", "pcB", "pD", "pcD", "pMI", "pM", "pcM", "pPB", "pAM", "pVW", "pint", "pcint", "pchar", "pcchar", "pvoid", "pcvoid"):
    CPP[p] = ("const " if p[1] == "c" and p not in ("pchar",) else "") + {"B": "B", "D": "D"}.get(
        p[2:] if p[1] == "c" and p != "pchar" else p[1:], (p[2:] if p[1] == "c" and p != "pchar" else p[1:])) + "*"
assert CPP["pchar"] == "char*" and CPP["pcchar"] == "const char*" and CPP["pcvoid"] == "const void*" and CPP["pMI"] == "MI*"
CLASSES = ["B", "D", "E", "M", "MI", "V", "W", "VW", "X1", "AM", "PB", "NP", "RT", "XR", "CR"]
POINTERS = ["pB", "pcB", "pD", "pcD", "pMI", "pM", "pcM", "pPB", "pAM", "pVW", "pint", "pcint", "pchar", "pcchar",
            "pvoid", "pcvoid", "ppint", "fn", "fnx"]
SCALARS = ["int", "uint", "long", "char", "bool", "dbl", "en", "ec", "nullp"]
THROWN = CLASSES + ["SE"] + [p for p in POINTERS if p != "pcM"] + SCALARS


def all_lists(rng, extra):
    out = [[("...", "v")]]
    out += [[(c, m)] for c in CLASSES for m in "vcr"]
    out += [[("SE", "c")], [("SE", "r")], [("CE", "c")], [("CE", "r")]]
    out += [[(p, "v")] for p in POINTERS] + [[(s, "v")] for s in SCALARS] + [[("int", "c")], [("int", "r")], [("bool", "c")]]
    flat = [l[0] for l in out[1:]]
    fixed = [[("D", "c"), ("B", "c")], [("B", "c"), ("D", "c")], [("int", "v"), ("...", "v")], [("XR", "r"), ("RT", "c"), ("SE", "c")],
             [("SE", "c"), ("...", "v")], [("pcB", "v"), ("pvoid", "v"), ("...", "v")], [("M", "r"), ("B", "r")],
             [("E", "r"), ("D", "r"), ("B", "r")], [("B", "r"), ("...", "v")], [("int", "v"), ("B", "r")],
             [("B", "r"), ("int", "v")], [("CR", "c"), ("CE", "c"), ("SE", "c")], [("int", "v"), ("long", "v"), ("...", "v")]]
    out += fixed
    while len(out) < 64 + len(fixed) + extra:
        l = rng.sample(flat, rng.choice([2, 2, 3, 3, 4]))
        if len({t for t, _ in l}) == len(l):
            out.append(l + ([("...", "v")] if rng.random() < 0.3 else []))
    return out


def decl(h):
    t, m = h
    return {"v": "%s", "c": "const %s&", "r": "%s&"}[m] % CPP[t]


def header(lists):
    o = []
    names = {"plain": [], "macro": [], "tc": []}
    for i, l in enumerate(lists):
        call = lambda j, h: ("return r.handle(id, %d, false, 0, nullptr);" % j if h[0] == "..." else
                             "return r.handle(id, %d, true, val(e), loc(e));" % j)
        par = lambda h: "..." if h[0] == "..." else decl(h) + " e"
        for form in ("plain", "macro"):
            n = "%s_%d" % (form, i)
            names[form].append(n)
            b = "int s = r.body(); if(s) return s; return r.ok(id);"
            # the success report comes after the block
            b = "int s = r.body(); if(s) return s;"
            o.append("NOINLINE static int %s(run& r, int id) {" % n)
            first = ("try { %s } catch(%s) { %s }" if form == "plain" else "CPPTRACE_TRY { %s } CPPTRACE_CATCH(%s) { %s }") % (
                b, par(l[0]), call(1, l[0]))
            o.append(first)
            for j, h in enumerate(l[1:], 2):
                o.append(" catch(%s) { %s }" % (par(h), call(j, h)))
            o.append(" return r.ok(id); }")
        n = "tc_%d" % i
        names["tc"].append(n)
        o.append("NOINLINE static int %s(run& r, int id) { bool caught = false;" % n)
        hs, own = [], []
        for j, h in enumerate(l, 1):
            c = "caught = true; " + call(j, h).replace("return ", "", 1)
            if h[0] == "...":
                hs.append("[&]() { %s }" % c)
            elif (i + j) % 3 == 0:
                hs.append("[&](%s e) mutable { %s }" % (decl(h), c))
            elif (i + j) % 3 == 1:
                # an object of the caller's: its own state is to change, not a copy's
                o.append("struct H%d { run& r; int id; bool caught; void operator()(%s e) { %s } } h%d{r, id, false};" % (j, decl(h), c, j))
                hs.append("h%d" % j)
                own.append("h%d.caught" % j)
            else:
                hs.append("[&](%s e) { %s }" % (decl(h), c))
        if i % 2:
            o.append("struct TheBody { run& r; bool entered; void operator()() { entered = true; r.body(); } } b{r, false};")
        o.append(" cpptrace::try_catch(%s, %s); if(!(%s)%s) r.ok(id); return 0; }" % (
            "b" if i % 2 else "[&] { r.body(); }", ", ".join(hs), " || ".join(["caught"] + own), " && b.entered" if i % 2 else ""))
    for form in names:
        o.append("static const tryfn %s_forms[] = {%s};" % (form, ", ".join(names[form])))
    return "\n".join(o) + "\n"


def lists_module(lists, throws, use, base="Exc"):
    tl = "<<" + ", ".join("<<" + ", ".join('<<"%s", "%s">>' % h for h in l) + ">>" for l in lists) + ">>"
    return ("---- MODULE MCExc ----\nEXTENDS %s\nListsV == %s\nThrowsV == {%s}\nUseV == {%s}\n====\n" % (
        base, tl, ", ".join('"%s"' % t for t in throws), ", ".join(str(u + 1) for u in use)))


def cases(c, name, lists, throws, use, forms, ops, maxops, maxdepth=99, simulate=None, depth=None, invariants=True, timeout=300):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Emit %s\nCONSTANTS\n Lists <- ListsV\n Throws <- ThrowsV\n UseLists <- UseV\n"
           " Forms = {%s}\n Ops = {%s}\n MaxOps = %d\n MaxDepth = %d\n") % (
        "CurrentIsLatest RethrowIsLatest Once" if invariants else "", ", ".join('"%s"' % f for f in forms), ", ".join('"%s"' % o for o in ops), maxops, maxdepth)
    r = tlc("MCExc", cfg, {"MCExc.tla": lists_module(lists, throws, use)}, name=name, simulate=simulate, depth=depth, timeout=timeout)
    if not r.ok:
        raise CheckError("the exception model breaks its own invariants: " + r.out[-3000:])
    out, seen = [], set()
    for l in r.out.split("\n"):
        if l.startswith('"CASE '):
            q = json.loads(json.loads(l)[5:])
            k = json.dumps(q["tape"])
            if k not in seen:
                seen.add(k)
                out.append(q)
    c.add_tlc(name, r, traces=len(out))
    return out


def strip(tape):
    t = list(tape)
    while t and t[-1] == "end":
        t.pop()
    return t


def replay(c, exe, d, name, qs, timeout=600):
    """Runs the tapes; reports those whose log differs from the specification's."""
    i, bad = 0, 0
    while i < len(qs):
        inp, outp = os.path.join(d, name + ".in"), os.path.join(d, name + ".out")
        with open(inp, "w") as f:
            for q in qs[i:]:
                f.write(json.dumps(q["tape"]) + "\n")
        try:
            p = sh([exe, inp, outp], cwd=d, check=False, timeout=timeout)
            status, err = p.returncode, p.err
        except subprocess.TimeoutExpired:
            status, err = "timeout", ""
        lines = open(outp).read().split("\n")[:-1]
        for q, l in zip(qs[i:], lines):
            got = json.loads(l)
            if got != q["log"]:
                bad += 1
                if bad <= 8:
                    c.violate("%s: program %s: expected %s, ran as %s" % (name, strip(q["tape"]), q["log"], got),
                              {"config": name, "tape": q["tape"], "expected": q["log"], "got": got})
        i += len(lines)
        if i < len(qs):
            if status == 0 or status == 9:
                raise CheckError("the driver stopped early: " + err[-500:])
            bad += 1
            c.violate("%s: program %s: expected %s, the program died with status %s: %s" % (
                name, strip(qs[i]["tape"]), qs[i]["log"], status, err[-600:]), {"config": name, "tape": qs[i]["tape"]})
            i += 1
            if bad > 8:
                break
    return bad
