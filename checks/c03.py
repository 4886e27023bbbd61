"""C03: driving the external symbolizer, for every fault, misbehaviour and interleaving."""
import sys, os, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("pipe", "pipe2", "socketpair", "fork", "vfork", "read", "waitpid", "execv", "execvp",
                                                 "execve", "execl", "execlp", "posix_spawn", "posix_spawnp"))]


def model(threads, jobs, lines, cap, faults, design="args", cloexec=True, emit=False):
    return ("SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n Jobs = %d\n Lines = %d\n Cap = %d\n MaxFaults = %d\n Design = \"%s\"\n"
            " CloseOnExec = %s\n EmitOn = %s\nINVARIANTS Survives NothingLeft Faithful Emit\nPROPERTY Terminates\n" % (
                ", ".join("t%d" % i for i in range(threads)), jobs, lines, cap, faults, design, str(cloexec).upper(), str(emit).upper()))


LINES = ["f%d at /s/%s/a.c:%d", "ns::f<int, %d>(char const*) at /s/%s/b file.cpp:%d (discriminator 3)", "(anonymous namespace)::g%d at %s/rel.c:%d",
         "operator delete(void*)%d at ??:%s?", "?? ??:0", "h%d at /s/%s/c.c:?", "?? %s%d:0", "k%d at C:/x:%s.c:%d"]
ODD = ["", "garbage", "x at y", "f at /s/a.c:99999999999999999999", "?? ", "f at a.c:", "at :1", "f at a.c:x12", "no colon at all", ":", "f at a.c:-3", "? at ?"]


def text(rng, i):
    t = rng.choice([0, 1, 2, 3, 4, 8] if rng.random() < 0.9 else [5, 6, 7, 9])
    b = "d%d" % rng.randint(0, 3)
    return {0: "f%d at /s/%s/a.c:%d" % (i, b, rng.randint(1, 99999)), 1: "ns::f<int, %d>(char const*) at /s/%s/b file.cpp:%d (discriminator 3)" % (i, b, i + 1),
            2: "(anonymous namespace)::g%d(int) at %s/rel.c:%d" % (i, b, rng.randint(0, 3)), 3: "gg%d at ??:?" % i, 4: "?? ??:0",
            5: "h%d at /s/%s/c.c:?" % (i, b), 6: "?? /s/%s/only.c:%d" % (b, i), 7: "k%d at C:/x:%s.c:%d" % (i, b, i),
            8: "l%d(int) at /look at me/%s at home.c:%d" % (i, b, i), 9: "m%d at n at /s/%s.c:%d" % (i, b, i)}[t]


class World:
    def __init__(self, c, d, exe):
        self.c, self.d, self.exe, self.n = c, d, exe, 0

    def obj(self, lines, **script):
        """An object with its own helper script; returns its path and addresses."""
        self.n += 1
        name = "o%d" % self.n
        addrs = self.c.rng.sample(range(1, 2 ** 31 if self.c.rng.random() < 0.5 else 4096), len(lines))
        with open(os.path.join(self.d, name + ".script"), "w") as f:
            for k, v in script.items():
                f.write("!%s%s\n" % (k, "" if v is True else " %s" % v))
            for a, l in zip(addrs, lines):
                f.write("%x %s\n" % (a, l))
        return {"path": "/obj/" + name, "addrs": addrs, "lines": lines}

    def run(self, mode, reqs, extra=(), timeout=120, env=None, pre=()):
        inp, outp = os.path.join(self.d, "q.in"), os.path.join(self.d, "q.out")
        with open(inp, "w") as f:
            for q in reqs:
                f.write(json.dumps(q) + "\n")
        open(outp, "w").close()
        e = {"FAKE_DIR": self.d}
        e.update(env or {})
        try:
            p = sh([*pre, self.exe, mode, inp, outp, *map(str, extra)], cwd=self.d, check=False, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            p = None
        ans = [json.loads(l) for l in open(outp).read().split("\n")[:-1]]
        if p is None or p.returncode != 0:
            sh(["pkill", "-9", "-f", self.exe], check=False)
            q = reqs[min(len(ans), len(reqs) - 1)]
            self.c.violate("%s in mode %s: %s" % ("resolution does not finish" if p is None else "the process died (status %d) %s" % (
                p.returncode, p.err[-800:]), mode, json.dumps(q)[:500]), {"mode": mode, "request": q})
            return None
        return ans


def request(rng, objs, **k):
    """A trace over the objects' addresses, in random order, with some frames outside any object."""
    asked = [{"o": i + 1, "n": n + 1, "raw": 0, "obj": a, "path": o["path"]} for i, o in enumerate(objs) for n, a in enumerate(o["addrs"])]
    # the frames of one object keep their order, objects interleave
    order = sorted(range(len(asked)), key=lambda x: (rng.random() if len(objs) > 1 else x))
    per = {}
    out = []
    for x in order:
        o = asked[x]["o"]
        per[o] = per.get(o, 0) + 1
        out.append([a for a in asked if a["o"] == o][per[o] - 1])
    for x in out:
        x["raw"] = x["obj"] + x["o"] * 2 ** 20 if x["obj"] < 2 ** 29 else x["obj"]
    return {"frames": [{"raw": x["raw"], "obj": x["obj"], "path": x["path"]} for x in out], "_asked": out, "absorb": 1, **k}


def record(q, a, objs, blur=0, fails=(), countlogs=True):
    return {"objs": [{"lines": o["lines"], "fails": i in fails} for i, o in enumerate(objs)], "asked": q["_asked"],
            "got": a["frames"], "threw": a["threw"], "logs": a["logs"], "fds": a["fds"], "kids": a["kids"],
            "absorb": bool(q["absorb"]), "blur": blur, "countlogs": countlogs, "fired": a["fired"]}


HARD = {"pipe-fails", "fork-fails", "read-fails", "exec-fails"}


def body(c):
    d = workdir("c03")
    fake = os.path.join(d, "addr2line")
    sh(["gcc", "-O1", "-w", "-o", fake, os.path.join(HARNESS, "fake_addr2line.c")])
    exe = build_exe(build_lib(Config("helper", flags=["-g", "-O1"], addr2line=fake)), "helper", ["helper_driver.cpp"], links=WRAP)
    asan = build_exe(build_lib(Config("helper-asan", flags=["-g", "-O1"] + ASAN, addr2line=fake)), "helper", ["helper_driver.cpp"], links=WRAP)
    c.log("built")
    rng = c.rng

    # 1. the protocol: no deadlock, no leak, nothing lost or invented, under every interleaving and fault
    for a in [(1, 2, 2, 2, 3), (2, 1, 2, 1, 1), (2, 1, 3, 2, 1)] + pick([], [(3, 1, 2, 1, 1), (2, 2, 2, 1, 2), (1, 3, 3, 2, 4)]):
        r = tlc("MCHelper", model(*a, emit=a[0] == 1), deadlock=True, name="MCHelper")
        if not r.ok:
            raise CheckError("the helper model breaks its own properties: " + r.out[-3000:])
        c.add_tlc("MCHelper %s" % (a,), r)
        if a[0] == 1:
            cases = [json.loads(json.loads(l)[5:]) for l in sorted(set(x for x in r.out.split("\n") if x.startswith('"CASE ')))]
    # the model can tell: the protocol that writes to the helper before reading is stuck
    r = tlc("MCHelper", model(1, 1, 4, 1, 0, design="stdin"), deadlock=True, name="MCHelper-stdin")
    if r.ok:
        raise CheckError("the model does not find the deadlock of writing first")
    if len(cases) < 200:
        raise CheckError("only %d schedules" % len(cases))

    # 2. every schedule of the model on the real code
    w = World(c, d, exe)
    sched = [list(x.values())[0] if isinstance(x, dict) else x for x in cases]
    rng.shuffle(sched)
    reqs, meta = [], []
    for jobs in sched[:pick(700, 100000)]:
        for h in jobs:
            nlines, k, script, dead = 2, {}, {}, False
            for ev in h[:-1]:
                if ev.startswith("dies-after-"):
                    script["dieafter"] = int(ev[11:]); dead = True
                elif ev.startswith("dies-within-"):
                    script["diewithin"] = "%d %d" % (int(ev[12:]) - 1, rng.randint(1, 60)); dead = True
                elif ev == "babbles":
                    script["babble"] = 1; dead = True
                elif ev == "pipe-fails":
                    k["pipe_fail"] = 0
                elif ev == "fork-fails":
                    k["fork_fail"] = 0
                elif ev == "exec-fails":
                    k["exec_fail"] = 1
                elif ev == "read-interrupted":
                    k["read_eintr"] = rng.randint(0, 1)
                elif ev == "read-fails":
                    k["read_fail"] = rng.randint(0, 1) if "read_eintr" not in k else 2 - k["read_eintr"]
                elif ev == "wait-interrupted":
                    k["wait_eintr"] = k.get("wait_eintr", 0) + 1
            if "pipe_fail" in k or "fork_fail" in k or "exec_fail" in k:
                dead = False
            o = w.obj([text(rng, i) if i == 0 else "f%d at /s/x.c:%d" % (i, rng.randint(10, 9999)) for i in range(nlines)], **script)
            q = request(rng, [o], absorb=rng.choice([1, 1, 0]), **k)
            reqs.append(q)
            meta.append((o, dead, h))
    recs = []
    for part, (binary, lo, hi) in enumerate([(exe, 0, len(reqs)), (asan, 0, len(reqs) // 6)]):
        w.exe = binary
        ans = w.run("replay", [{k: v for k, v in q.items() if k != "_asked"} for q in reqs[lo:hi]], timeout=300)
        if ans is None:
            return
        for q, a, (o, dead, h) in zip(reqs[lo:hi], ans, meta[lo:hi]):
            f = set(a["fired"].split())
            if "fork-fails" in f or "pipe-fails" in f or "exec-fails" in f:
                dead = False
            recs.append(record(q, a, [o], fails=[0] if dead or f & HARD else [], countlogs=True))
    c.coverage["replayed_schedules"] = len(recs)
    c.sample({"schedule": sched[0]})
    w.exe = exe

    # 3. many objects, odd output, pieces, interruptions, one fault somewhere
    def mixed(nobj, faults=True, maxlines=12):
        objs, fails = [], []
        for i in range(nobj):
            n = rng.choice([1, 1, 2, 3, maxlines])
            lines = [text(rng, x) for x in range(n)]
            script, y = {}, rng.random()
            if faults and y < 0.08:
                script["dieafter"] = rng.randint(0, n - 1); fails.append(i)
            elif faults and y < 0.16:
                m = rng.randint(0, n - 1)
                script["diewithin"] = "%d %d" % (m, rng.randint(1, 70)); fails.append(i)
            elif faults and y < 0.22:
                script["babble"] = rng.randint(1, 3); fails.append(i)
            elif faults and y < 0.28:
                script["omit"] = rng.randint(0, n - 1); fails.append(i)
            elif faults and y < 0.36 and n > 1:
                lines[rng.randrange(n - 1)] = rng.choice(ODD[1:])
            elif y < 0.5:
                script["pieces"] = True
            elif y < 0.55:
                script["sleep"] = rng.randint(1, 40)
            objs.append(w.obj(lines, **script))
        return objs, fails
    for mode in ("replay", "timer", "nochld", "nofd"):
        reqs, meta = [], []
        for _ in range(pick({"replay": 250, "timer": 60}.get(mode, 40), 1500)):
            objs, fails = mixed(rng.choice([1, 2, 3, 5]))
            k, blur = {}, 0
            y = rng.random()
            if mode == "replay" and y < 0.4:
                k[rng.choice(["pipe_fail", "fork_fail", "read_fail"])] = rng.randint(0, len(objs) * 2)
            elif mode == "replay" and y < 0.5:
                k["exec_fail"] = 1
            elif y < 0.7:
                k["read_eintr"] = rng.randint(0, 5)
                k["wait_eintr"] = rng.randint(0, 4)
            reqs.append(request(rng, objs, absorb=1 if rng.random() < 0.8 else 0, **k))
            meta.append((objs, fails))
        for binary in (exe, asan) if mode == "replay" else (exe,):
            w.exe = binary
            ans = w.run(mode, [{k: v for k, v in q.items() if k != "_asked"} for q in reqs], timeout=300)
            if ans is None:
                return
            for q, a, (objs, fails) in zip(reqs, ans, meta):
                blur = sum(1 for f in a["fired"].split() if f in HARD)
                recs.append(record(q, a, objs, blur=blur, fails=fails, countlogs=blur == 0))
    w.exe = exe
    c.log("%d recorded resolutions" % len(recs))

    # 4. first use: the availability of the helper is found out under faults, and a passing fault is not held against it
    for env, kw, avail in [({}, {}, "yes"), ({"FAKE_HELP": "fail"}, {}, "no"), ({"FAKE_HELP": "crash"}, {}, "any"), ({"FAKE_HELP": "slow"}, {}, "yes"),
                           ({}, {"fork_fail": 0}, "later"), ({}, {"exec_fail": 1}, "no"), ({}, {"wait_eintr": 2}, "yes"), ({"FAKE_HELP": "slow"}, {"wait_eintr": 3}, "yes")]:
        objs = [w.obj(["f at /s/a.c:3", "g at /s/b.c:4"]), w.obj(["h at /s/c.c:5"])]
        reqs = [request(rng, objs, **kw), request(rng, objs)]
        ans = w.run("replay", [{k: v for k, v in q.items() if k != "_asked"} for q in reqs], timeout=60, env=env)
        if ans is None:
            return
        for n, (q, a) in enumerate(zip(reqs, ans)):
            fails = [0, 1] if avail == "no" or (avail == "later" and n == 0) else []
            recs.append(record(q, a, objs, fails=fails, blur=2 if avail == "any" else 0, countlogs=False))
    hidden = os.path.join(d, "addr2line.away")
    os.rename(fake, hidden)
    try:
        objs = [w.obj(["f at /s/a.c:3"])]
        q = request(rng, objs)
        ans = w.run("replay", [{k: v for k, v in q.items() if k != "_asked"}], timeout=60)
    finally:
        os.rename(hidden, fake)
    if ans is None:
        return
    recs.append(record(q, ans[0], objs, fails=[0], countlogs=False))

    # 5. traces of any size: the default answers of the helper, which need more than any pipe holds in both directions
    for n in pick([700, 5000, 30000], [700, 2047, 2048, 2049, 4096, 5000, 30000, 150000]):
        addrs = [rng.randint(1, 2 ** 31) for _ in range(n)]
        objs = ["/obj/big%d" % i for i in range(3)]
        q = {"frames": [{"raw": a, "obj": a, "path": objs[a % 3]} for a in addrs], "absorb": 1}
        ans = w.run("replay", [q], timeout=pick(60, 200))
        if ans is None:
            return
        a = ans[0]
        if a["fds"] or a["kids"] or a["threw"] or len(a["frames"]) != n:
            c.violate("a trace of %d frames: %s" % (n, {k: v for k, v in a.items() if k != "frames"}), {"frames": n})
            return
        for x, f in zip(addrs, a["frames"]):
            want = {"raw": x, "obj": x, "sym": "fn_%x" % x, "file": "/src/big%d/a_rather_long_directory_name/file_%x.c" % (x % 3, x), "line": x % 1000 + 1, "col": -1, "inl": False}
            if f != want:
                c.violate("a trace of %d frames: expected %s got %s" % (n, want, f), {"frames": n})
                return
    c.log("large traces done")

    # 6. several threads at once, with slow and piecemeal helpers, while other programs are being started
    reqs, meta = [], []
    for _ in range(pick(16, 64)):
        objs, fails = mixed(rng.choice([1, 2, 3]), faults=False, maxlines=30)
        reqs.append(request(rng, objs))
        meta.append(objs)
    rounds = pick(4, 25)
    ans = w.run("threads", [{k: v for k, v in q.items() if k != "_asked"} for q in reqs], (8, rounds), timeout=pick(90, 300))
    if ans is None:
        return
    for i, a in enumerate(ans):
        recs.append(record(reqs[i % len(reqs)], a, meta[i % len(reqs)], countlogs=True))
    c.coverage["recorded_resolutions"] = len(recs)
    tlc_traces(c, "TraceHelper", recs, name="TraceHelper", describe=lambda r, j: json.dumps(r)[:1200])
    c.sample({"recorded": recs[0]})


main("C03", body)
