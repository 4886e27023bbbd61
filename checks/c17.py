"""C17: the terminate handler reports what killed the program and aborts, for every way to die and every type."""
import sys, os, pty, resource, subprocess, termios
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CONFIGS = [Config("term-a2l-O0"), Config("term-a2l-clang", cxx="clang++"),
           Config("term-bt-O1", flags=("-g", "-O1", "-fno-inline", "-fno-optimize-sibling-calls"), symbols="LIBBACKTRACE"),
           Config("term-luw-a2l", unwind="LIBUNWIND", dl="NONE"), Config("term-nothing", symbols="NOTHING", dl="DLADDR1")]
MSGS = 6


def run(job):
    exe, cfg, case, msg, opts, tty = job
    r, w = os.pipe()
    m = s = None
    if tty:
        m, s = pty.openpty()
        a = termios.tcgetattr(s)
        a[1] &= ~termios.OPOST
        termios.tcsetattr(s, termios.TCSANOW, a)
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen([exe, case["type"] or "none", case["cause"], str(msg), opts or "-"], stdout=subprocess.PIPE,
                         stderr=s if tty else subprocess.PIPE, preexec_fn=pre, pass_fds=(w,), env=dict(os.environ, NOTE_FD=str(w)))
    os.close(w)
    err = b""
    try:
        if tty:
            os.close(s)
            while True:
                try:
                    b = os.read(m, 65536)
                except OSError:
                    break
                if not b:
                    break
                err += b
            os.close(m)
            out = p.stdout.read()
            p.wait(timeout=60)
        else:
            out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    info = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        info += b
    os.close(r)
    return out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), p.returncode, json.loads(info) if info else {"type": "", "msg": ""}


HEADER = "Stack trace (most recent call first):\n"


def body(c):
    r = tlc("MCTerminate", "SPECIFICATION Spec\nINVARIANT Once Bottom Own Sane Sane2 Sane3 Out\nPROPERTY Ended\n", name="MCTerminate", workers=1)
    if not r.ok:
        raise CheckError("MCTerminate: " + r.out[-2500:])
    c.add_tlc("MCTerminate", r)
    cases = [json.loads(json.loads(l)[5:]) for l in r.out.splitlines() if l.startswith('"CASE ')]
    c.log("%d ways to die" % len(cases))
    def build(cfg):
        build_lib(cfg)
        return build_exe(cfg, "term", ["term_driver.cpp"], extra=["-std=c++17"])
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(build, CONFIGS))
    c.log("built")
    rng = c.rng
    jobs = []
    for n, cfg in enumerate(CONFIGS):
        for case in cases:
            share = 1.0 if n == 0 else pick(0.3, 1.0)
            if rng.random() < share:
                opts = "".join(o for o in "u2aso" if rng.random() < .2)
                jobs.append((exes[n], cfg, case, rng.choice([1, 1, 2, 3, 4, 0] if rng.random() < .97 else [5]), opts, rng.random() < .1))
    for case in [x for x in cases if x["cause"] == "uncaught"]:
        for msg in range(MSGS):
            jobs.append((exes[0], CONFIGS[0], case, msg, "", False))
    recs = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for job, (out, err, code, info) in zip(jobs, ex.map(run, jobs)):
            _, cfg, case, msg, opts, tty = job
            if code in (98, 99):
                raise CheckError("driver did not die: %s" % case)
            plain = re.sub("\x1b\\[[0-9;]*m", "", err)
            at = plain.rfind(HEADER)
            head = plain[:at] if at >= 0 else plain
            tail = plain[at + len(HEADER):] if at >= 0 else ""
            frames = tail.split("\n")
            if frames and frames[-1] == "":
                frames.pop()
            recs.append({"type": case["type"], "cause": case["cause"], "opts": opts, "config": cfg.name, "tty": tty, "color": "\x1b[" in err,
                         "aborted": code == -6, "code": code, "out": out, "head": head, "headers": plain.count(HEADER), "frames": frames,
                         "marks": plain.count("Xq7"), "dem": info["type"], "msg": info["msg"], "named": cfg.symbols == "ADDR2LINE"})
    c.log("%d deaths" % len(recs))
    c.sample({"death": {k: recs[0][k] for k in ("type", "cause", "head", "frames")}})
    tlc_traces(c, "TraceTerminate", recs, name="TraceTerminate", describe=lambda r, j: json.dumps(r)[:1500])
    c.coverage.update(deaths=len(recs), causes=len({x["cause"] for x in cases}), types=len({x["type"] for x in cases}), configurations=[x.name for x in CONFIGS])
    c.assumptions += ["the exception's what()/message() itself does not fail or return null", "several threads dying at once are not explored"]


main("C17", body)
