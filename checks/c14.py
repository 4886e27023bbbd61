"""C14: the JIT object registry, for every history of registrations and every image."""
import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

M64 = 2 ** 64 - 1


def elf(ranges, syms=(), bits=64, le=True, texts_first=True, dyn=False, shent_pad=0, extra=0, name=".text", mangle=None):
    """An object image: one .text section per range (address range), symbols (value relative to the range's low)."""
    e = "<" if le else ">"
    w = bits == 64
    shstr = b"\0" + b".shstrtab\0" + name.encode() + b"\0.symtab\0.strtab\0.data\0"
    off = {n: shstr.index(b"\0" + n.encode() + b"\0") + 1 for n in (".shstrtab", name, ".symtab", ".strtab", ".data")}
    strtab = b"\0"
    ents = [(0, 0, 0)]
    for n, v, sz in syms:
        ents.append((len(strtab), v, sz))
        strtab += n.encode() + b"\0"
    sym = b""
    for n, v, sz in ents:
        sym += struct.pack(e + "IBBHQQ", n, 2, 0, 1, v, sz) if w else struct.pack(e + "IIIBBH", n, v, sz, 2, 0, 1)
    secs = [dict(name=0, type=0)]
    text = [dict(name=off[name], type=1, addr=lo, size=hi - lo) for lo, hi in ranges]
    other = [dict(name=off[".data"], type=1, addr=0x10 * i, size=0x1000) for i in range(extra)]
    tabs = [dict(name=off[".symtab"], type=11 if dyn else 2, data=sym, ent=24 if w else 16, link=None),
            dict(name=off[".strtab"], type=3, data=strtab, st=True),
            dict(name=off[".shstrtab"], type=3, data=shstr, sh=True)]
    secs += other + (text + tabs if texts_first else tabs + text)
    si = [i for i, s in enumerate(secs) if s.get("st")][0]
    shi = [i for i, s in enumerate(secs) if s.get("sh")][0]
    hs = 64 if w else 52
    body = b""
    for s in secs:
        s["off"] = hs + len(body)
        if "data" in s:
            body += s["data"]
            s["size"] = len(s["data"])
    entsz = (64 if w else 40) + shent_pad
    if mangle:
        mangle(secs)
    table = b""
    for s in secs:
        f = (s["name"], s["type"], 0, s.get("addr", 0), s["off"], s.get("size", 0), si if s.get("link", 0) is None else 0, 0, 1, s.get("ent", 0))
        table += struct.pack(e + ("IIQQQQIIQQ" if w else "IIIIIIIIII"), *f) + b"\xcc" * shent_pad
    shoff = hs + len(body)
    ident = b"\x7fELF" + bytes([2 if w else 1, 1 if le else 2, 1]) + b"\0" * 9
    hdr = ident + struct.pack(e + ("HHIQQQIHHHHHH" if w else "HHIIIIIHHHHHH"), 1, 62 if w else 3, 1, 0, 0, shoff, 0,
                              hs, 0, 0, entsz, len(secs), shi)
    return hdr + body + table


def setf(sel, **kw):
    def f(secs):
        for s in secs:
            if sel(s):
                s.update(kw)
    return f


def bad_images(rng, good):
    """Byte strings that are no object image at all or whose section data lies outside: nothing may be registered."""
    out = [b"", b"\x7f", b"\x7fELF", b"\x7fELF\2\1", good[:16], good[:63], good[:64], good[:-1], b"MZ" + good[2:],
           good[:6] + b"\0" + good[7:], good[:52] + b"\x40\1" + good[54:],      # version, header size
           good[:62] + b"\xff\xff" + good[64:], good[:62] + b"\1\0" + good[64:],  # string table index
           good[:40] + struct.pack("<Q", M64 - 7) + good[48:], good[:40] + struct.pack("<Q", 2 ** 63 - 8) + good[48:],
           good[:60] + b"\xff\xff" + good[62:], b"\0" * 200]
    out += [good[:rng.randrange(0, len(good))] for _ in range(6)]
    R = [(0x1000, 0x1100)]
    shs = lambda s: s.get("sh")
    for kw in (dict(size=2 ** 63), dict(size=M64), dict(size=2 ** 40), dict(size=2 ** 32 - 1), dict(off=M64 - 4),
               dict(off=2 ** 62), dict(off=2 ** 63), dict(type=2), dict(off=10 ** 6), dict(size=M64 - 1, off=64)):
        out.append(elf(R, mangle=setf(shs, **kw)))
    return out


def odd_images(rng):
    """Damaged images whose reading depends on the bytes: harmless, content not judged."""
    R = [(0x1000, 0x1100)]
    S = [("odd", 0, 0x20)]
    out = [elf(R, S, mangle=setf(lambda s: s["type"] == 1, name=n)) for n in (0xffffffff, 0x7fffffff, 100, 46, 4096)]
    for kw in (dict(size=2 ** 63), dict(size=M64), dict(size=24 * 2 ** 36), dict(ent=0), dict(ent=1), dict(size=0), dict(size=25), dict(off=M64 - 20),
               dict(link=None, size=24 * 10 ** 6), dict(off=2 ** 63)):
        out.append(elf(R, S, mangle=setf(lambda s: s["type"] == 2, **kw)))
    for kw in (dict(size=2 ** 63), dict(size=M64), dict(size=1), dict(size=0), dict(off=M64), dict(type=1)):
        out.append(elf(R, S, mangle=setf(lambda s: s.get("st"), **kw)))
    g = elf(R, S)
    for n in (0xffffffff, 0x10000, 6):   # symbol name outside the string table
        i = g.index(struct.pack("<IBBHQQ", 1, 2, 0, 1, 0, 0x20))
        out.append(g[:i] + struct.pack("<I", n) + g[i + 4:])
    for _ in range(30):
        b = bytearray(g)
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[rng.randrange(4, len(b))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        out.append(bytes(b))
    return out


def run(c, exe, d, cmds, what):
    inp, outp = os.path.join(d, "q.in"), os.path.join(d, "q.out")
    open(inp, "w").write("".join(x + "\n" for x in cmds))
    if os.path.exists(outp):
        os.unlink(outp)
    p = sh([exe, inp, outp], cwd=d, check=False, timeout=300,
           env={"ASAN_OPTIONS": "allocator_may_return_null=0:detect_leaks=0:max_allocation_size_mb=4096"})
    ans = open(outp).read().split("\n")[:-1] if os.path.exists(outp) else []
    if p.returncode != 0 or len(ans) != len(cmds):
        n = len(ans)
        lo = max([i for i in range(min(n + 1, len(cmds))) if cmds[i] == "reset"] or [0])
        used = {x.split()[2] for x in cmds[lo:n + 1] if x.startswith("put ")}
        pre = [x for x in cmds if x.startswith("img ") and x.split()[1] in used]
        c.violate("the registry crashed (status %s) in %s at %r after %r: %s" % (
            p.returncode, what, cmds[min(n, len(cmds) - 1)][:100], [x[:60] for x in cmds[lo:n]][-12:], p.err[-1500:]),
            pre + cmds[lo:n + 1])
        return None
    return ans


UNKNOWN = {"ok": True, "ranges": [{"lo": 1, "hi": 0}], "syms": []}
NONE = {"ok": False, "ranges": [], "syms": []}


def body(c):
    d = workdir("c14")
    exes = []
    for cfg in (Config("asan", flags=["-g", "-O1"] + ASAN), Config("rel", flags=["-O2", "-DNDEBUG"])):
        exes.append(build_exe(build_lib(cfg), "jit", ["jit_driver.cpp"]))
    c.log("built")

    # 1. the mechanism against the abstract registry, all histories; and every history replayed
    cfg = ("SPECIFICATION Spec\nINVARIANTS Agree AtMostOne Ordered Gone Emit\nCONSTANTS\n Slots = {1, 2, 3}\n"
           " Images <- %s\n Top = 8\n Depth = %d\n EmitOn = %s\n KeepEmpty = FALSE\n")
    r = tlc("MCJit", cfg % ("ImagesV", pick(4, 5), "FALSE"), name="MCJit-mechanism")
    if not r.ok:
        raise CheckError("the registry model breaks its own invariants: " + r.out[-3000:])
    c.add_tlc("MCJit mechanism vs registry", r)
    r = tlc("MCJit", cfg % ("ImagesSmall", pick(3, 4), "TRUE"), name="MCJit-cases")
    if not r.ok:
        raise CheckError("the registry model breaks its own invariants: " + r.out[-3000:])
    cases = [json.loads(json.loads(l)[5:]) for l in r.out.split("\n") if l.startswith('"CASE ')]
    if len(cases) < 1000:
        raise CheckError("only %d model cases" % len(cases))
    for exe in exes:
        base = c.rng.choice([0x7f0000001000, 0x10000, 2 ** 63 - 64, M64 - 200])
        cmds, ids = [], {}

        def img(x):
            key = json.dumps(x, sort_keys=True)
            if key not in ids:
                ids[key] = len(ids) + 1
                b = elf([(base + 16 * q["lo"], base + 16 * q["hi"]) for q in x["ranges"]], le=True,
                        texts_first=c.rng.random() < 0.5, extra=c.rng.randint(0, 2)) if x["ok"] else b"\x7fELF junk"
                cmds.append("img %d %s" % (ids[key], b.hex()))
            return ids[key]
        pcs = [base + 16 * i + k for i in range(9) for k in (0, 15)]
        q = "q " + " ".join("%x" % p for p in pcs)
        idx = []
        for x in cases:
            cmds.append("reset")
            live = {}
            for o in x["h"]:
                if o["op"] == "reg":
                    n = img(o["img"])
                    if live.get(o["slot"]) != n:
                        cmds.append("put %d %d" % (o["slot"], n))
                        live[o["slot"]] = n
                    cmds.append("reg %d" % o["slot"])
                elif o["op"] == "unreg":
                    if o["slot"] in live:
                        cmds += ["unreg %d" % o["slot"], "free %d" % o["slot"]]
                        del live[o["slot"]]
                    else:
                        cmds.append("unregnull")
                else:
                    cmds += ["clear"] + ["free %d" % s for s in live]
                    live = {}
            idx.append(len(cmds))
            cmds.append(q)
        ans = run(c, exe, d, cmds, "model histories")
        if ans is None:
            return
        for x, i in zip(cases, idx):
            exp = []
            for n in range(18):
                a = x["a"][n // 2]
                exp.append("%x," % (base + 16 * a[1]) if a else "-")
            if ans[i].split() != exp and len(c.violations) < 5:
                c.violate("history %s: lookups of %s: expected %s got %s" % (json.dumps(x["h"]), [hex(p) for p in pcs], exp, ans[i].split()), x)
        c.add_tlc("MCJit histories", r, traces=len(cases))
    c.sample({"history": cases[len(cases) // 2]})

    # 2. long random histories with symbols, encodings, damaged images
    for rnd, exe in enumerate(exes):
        recs = []
        cmds, plan = [], []
        rng = c.rng
        nid = 0
        for t in range(pick(120, 600)):
            cmds.append("reset")
            ops, live, mem = [], {}, {}
            top = rng.choice([2 ** 20, 2 ** 31, 2 ** 47, M64])
            step = rng.choice([1, 16, 4096])
            bad, odd = bad_images(rng, elf([(0x1000, 0x1100)], [("b", 0, 4)])), odd_images(rng)
            addrs = {0, 1, top}
            for n in range(rng.choice([6, 15, 40])):
                kind = rng.choice(["reg"] * 8 + ["unreg"] * 4 + ["clear", "gdb", "rereg", "bad", "bad", "odd", "odd", "unregmid", "unregnull", "regnull", "absorb"])
                op = {"op": kind, "err": ""}
                if kind in ("reg", "gdb"):
                    if kind == "gdb":
                        live, k = {}, rng.randint(0, 4)
                    else:
                        k = 1
                    lst = []
                    for _ in range(k):
                        s = rng.choice([x for x in range(1, 60) if x not in live])
                        occ = [x for y in live.values() for x in y["rng"]]
                        rs, sy = [], []
                        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
                            if occ and rng.random() < 0.6:  # right next to something
                                o = rng.choice(occ)
                                sz = rng.choice([0, 1, step, 5 * step])
                                lo = o[1] if rng.random() < 0.5 else o[0] - sz
                                if rng.random() < 0.15:
                                    lo, sz = rng.randint(o[0], o[1]), 0    # an empty section anywhere
                            else:
                                lo, sz = rng.randrange(0, top, step) if top < 2 ** 40 else rng.randrange(0, top // step) * step, rng.choice([0, 1, step, 20 * step])
                            hi = lo + sz
                            if lo < 0 or hi > top or any(lo < h and l < hi for l, h in occ + rs):
                                continue
                            rs.append((lo, hi))
                        bits = 32 if top < 2 ** 32 and rng.random() < 0.5 else 64
                        if len(rs) == 1 and rs[0][1] - rs[0][0] >= 3:
                            lo, hi = rs[0]
                            cuts = sorted(rng.sample(range(0, min(hi - lo, 10 ** 6) + 1), min(rng.choice([2, 3, 4]), hi - lo)))
                            for i in range(len(cuts) - 1):
                                if rng.random() < 0.8:
                                    sy.append(("f%d_%d_%d" % (t, n, i), cuts[i], cuts[i + 1] - cuts[i]))
                        rng.shuffle(sy)
                        nid += 1
                        b = elf(rs, sy, bits, le=rng.random() < 0.75, texts_first=rng.random() < 0.5, dyn=rng.random() < 0.3,
                                shent_pad=rng.choice([0, 0, 8]), extra=rng.randint(0, 2))
                        cmds += ["img %d %s" % (nid, b.hex()), "put %d %d" % (s, nid)]
                        base = rs[0][0] if rs else 0
                        im = {"ok": True, "ranges": [{"lo": l, "hi": h} for l, h in rs],
                              "syms": [{"name": a, "lo": base + v, "hi": base + v + z} for a, v, z in sy]}
                        live[s] = {"rng": rs, "img": im}
                        lst.append({"slot": s, "img": im})
                        for l, h in rs:
                            addrs |= {l, h, max(l - 1, 0), min(h + 1, M64), max(h - 1, 0), (l + h) // 2}
                        addrs |= {base + v + q for _, v, z in sy for q in (0, z - 1, z)}
                    if kind == "reg":
                        cmds.append("reg %d" % s)
                        op.update(lst[0])
                    else:
                        cmds.append("gdb " + " ".join(str(x["slot"]) for x in lst))
                        op["list"] = lst
                elif kind in ("bad", "odd"):
                    s = rng.choice([x for x in range(1, 60) if x not in live])
                    nid += 1
                    cmds += ["img %d %s" % (nid, rng.choice(bad if kind == "bad" else odd).hex()), "put %d %d" % (s, nid), "reg %d" % s]
                    live[s] = {"rng": [], "img": NONE if kind == "bad" else UNKNOWN}
                    op.update(op="reg", slot=s, img=live[s]["img"])
                elif kind == "rereg":
                    if not live:
                        continue
                    s = rng.choice(sorted(live))
                    cmds.append("reg %d" % s)
                    op.update(op="reg", slot=s, img=live[s]["img"])
                elif kind == "unreg":
                    if not live:
                        continue
                    s = rng.choice(sorted(live))
                    cmds.append("unreg %d" % s)
                    del live[s]
                    op.update(slot=s)
                    plan.append((len(cmds) - 1, op))
                    ops.append(op)
                    cmds.append("free %d" % s)
                    op = None
                elif kind == "unregmid":
                    if not live or live[min(live)]["rng"] == []:
                        continue
                    cmds.append("unregmid %d %d" % (min(live), rng.choice([1, 8, -1])))
                    op["op"] = "nop"
                elif kind == "absorb":
                    cmds.append("absorb %d" % rng.randint(0, 1))
                    op["op"] = "nop"
                elif kind == "clear":
                    cmds.append("clear")
                    live = {}
                else:
                    cmds.append(kind)
                    op["op"] = "nop"
                if op is not None:
                    plan.append((len(cmds) - 1, op))
                    ops.append(op)
                near = {x for y in live.values() for l, h in y["rng"] for x in (l, max(h - 1, 0), h, max(0, l - 1))}
                ask = rng.sample(sorted(addrs), min(len(addrs), 4)) + rng.sample(sorted(near), min(len(near), 6))
                cmds.append("q " + " ".join("%x" % a for a in ask))
                for i, a in enumerate(ask):
                    qo = {"op": "q", "pc": a, "err": "", "lo": -1, "sym": ""}
                    plan.append((len(cmds) - 1, qo, i))
                    ops.append(qo)
            # ranks instead of addresses
            recs.append(ops)
        ans = run(c, exe, d, cmds, "random histories")
        if ans is None:
            continue
        for p in plan:
            a = ans[p[0]]
            if a.startswith("! "):
                p[1]["err"] = "exception escaped: " + a[2:]
            elif len(p) == 3:
                f = a.split(" ")
                if any(x == "!" for x in f):
                    p[1]["err"] = "exception escaped: " + a
                elif f[p[2]] != "-":
                    lo, _, p[1]["sym"] = f[p[2]].partition(",")
                    p[1]["lo"] = int(lo, 16)
        traces = []
        for ops in recs:
            pts = set()
            for o in ops:
                for im in [o["img"]] if "img" in o else [x["img"] for x in o.get("list", [])]:
                    if im is not UNKNOWN:
                        pts |= {x[k] for y in ("ranges", "syms") for x in im[y] for k in ("lo", "hi")}
                if o["op"] == "q":
                    pts |= {o["pc"]} | ({o["lo"]} if o["lo"] != -1 else set())
            rank = {x: i for i, x in enumerate(sorted(pts))}
            rank[-1] = -1

            def ri(im):
                if im is UNKNOWN:
                    return im
                return {"ok": im["ok"], "ranges": [{k: rank[v] for k, v in x.items()} for x in im["ranges"]],
                        "syms": [dict(x, lo=rank[x["lo"]], hi=rank[x["hi"]]) for x in im["syms"]]}
            tr = []
            for o in ops:
                o = dict(o)
                if "img" in o:
                    o["img"] = ri(o["img"])
                if "list" in o:
                    o["list"] = [{"slot": x["slot"], "img": ri(x["img"])} for x in o["list"]]
                if o["op"] == "q":
                    o["pc"], o["lo"] = rank[o["pc"]], rank[o["lo"]]
                tr.append(o)
            traces.append({"ops": tr})
        tlc_traces(c, "TraceJit", traces, name="TraceJit", describe=lambda r, j: json.dumps(r["ops"][max(0, j - 12):j])[-1400:])
        c.sample({"recorded": traces[0]["ops"][:6]})


main("C14", body)
