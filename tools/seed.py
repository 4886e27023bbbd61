"""Author and try planted bugs. seeds/*.py style: python3 tools/seed.py make FILE  (writes seeded/<id>/)
   python3 tools/seed.py try ID [CHECK...]   (applies to /repo, builds, tests, demo, checks, undoes)"""
import sys, os, json, subprocess, shutil, re, time
V = os.environ.get("SEED_V", "/verif")
R = os.environ.get("SEED_REPO", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


DEMO = """#!/bin/bash
# exit 0 if the property holds
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here"/demo.* "$tmp"/
B=$PWD/_build/{cfg}
{cxx} -std=c++17 {flags} -DCPPTRACE_STATIC_DEFINE -I"$PWD/include" -I"$PWD/src" -I"$B/include" "$tmp/demo.cpp" "$B/libcpptrace.a" {links} -ldl -pthread -o "$tmp/demo"
cd "$tmp"
timeout 120 {pre}./demo
"""


def make(b):
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout, "dirty /repo"
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "wb").write(sh(["git", "-C", R, "diff"]).stdout)
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
    k = dict(cfg="gcc-debug", cxx="g++", flags="-g -O0", links="", pre="")
    k.update(b.get("opts", {}))
    open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh") or DEMO.format(**k))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "demo" in b:
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
    for fn, text in b.get("files", {}).items():
        open(os.path.join(d, fn), "w").write(text)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    p = set(json.load(open("/tmp/seed_t.json"))["passed"])
    return [s for s in b["stable"] if s not in p]


def trial(i, checks, only_checks=False):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {"id": i, "property": prop}
    assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout, "dirty /repo"
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    try:
        if not only_checks:
            r = sh("bash /opt/vp/build.sh")
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
            res["demo_clean"] = r.returncode
            if r.returncode:
                print(r.stdout.decode()[-1500:])
        r = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            res["apply"] = r.stdout.decode()
            return res
        if not only_checks:
            r = sh("bash /opt/vp/build.sh")
            res["build"] = r.returncode
            if r.returncode == 0:
                res["broken_tests"] = stable()[:5]
                r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
                res["demo_patched"] = r.returncode
                res["demo_out"] = r.stdout.decode("utf-8", "replace")[-200:]
        for ch in checks or ["c" + prop[1:]]:
            if not os.path.exists(os.path.join(V, "checks", ch + ".py")):
                continue
            t = time.time()
            r = sh(["python3", os.path.join(V, "checks", ch + ".py")], cwd=V, env=env)
            o = r.stdout.decode("utf-8", "replace")
            res[ch] = (r.returncode, round(time.time() - t), "VIOLATION property=" in o,
                       (re.findall(r"VIOLATION: (.{0,200})", o) or [o[-300:] if r.returncode == 2 else ""])[0])
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for b in ns["BUGS"]:
            if len(sys.argv) < 4 or b["id"] in sys.argv[3:]:
                make(b)
                print("made", b["id"])
    else:
        r = trial(sys.argv[2], sys.argv[3:], sys.argv[1] == "check")
        print(json.dumps(r, indent=1))
        if sys.argv[1] == "try":
            sh("bash /opt/vp/build.sh")
