"""Development tool: validates planted changes. Usage:
plant.py SPEC.py [id...]; SPEC defines BUGS = {id: dict(prop, edits=[(file, old, new)...],
needs, what, demo=python or bash source, files={name: text})}.
Writes seeded/<id>/ when the change builds, passes the tests, and its demo
discriminates; then runs the property's quick check against it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"


def sh(cmd, cwd=W, timeout=900, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)


def setup():
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if os.path.isdir(W) and sh("git rev-parse HEAD").stdout.strip() != head:
        shutil.rmtree(W)
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("_build"))
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release "
               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON "
               "&& ninja -C _build -j8", env=dict(os.environ, CC="gcc", CXX="g++"))
        assert r.returncode == 0, r.stdout[-3000:]
    sh("git checkout -q -- .")
    assert sh("ninja -C _build -j8").returncode == 0


def tests():
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = []
    for t in stable:
        r = sh("cd _build && ./tests/boost_tests_run --run_test=" + t.replace("::", "/"))
        if r.returncode:
            bad.append(t)
    return bad


def demo(d):
    t = "/tmp/seeddemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh("bash %s/demo.sh" % t, timeout=300)
        return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(spec)
    setup()
    for i in ids:
        b = spec[i]
        d = "%s/seeded/%s" % (V, i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if "demo_sh" in b:
            open(d + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(
                "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n"
                "exec python3 \"$(dirname \"$0\")/demo.py\"\n")
            open(d + "/demo.py", "w").write(
                "import os\nimport sys\nsys.path.insert(0, os.path.dirname("
                "os.path.abspath(__file__)))\nfrom demo_world import *  # noqa\n" + b["demo"])
            shutil.copy(V + "/mc/demo_world.py", d)
        for n, t in b.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        ok = False
        try:
            r0 = demo(d)
            for f, old, new in b["edits"]:
                s = open(W + "/" + f).read()
                assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old)
                open(W + "/" + f, "w").write(s.replace(old, new))
            diff = sh("git diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            own = []  # removed lines must belong to the original repository
            for f in {e[0] for e in b["edits"]}:
                base = sh("git show 81290c0:%s" % f).stdout.splitlines()
                for ln in sh("git diff -- %s" % f).stdout.splitlines():
                    if ln.startswith("-") and not ln.startswith("---") and ln[1:] not in base:
                        own.append(ln)
            bl = sh("ninja -C _build -j8")
            if bl.returncode:
                print(i, "DOES NOT BUILD", bl.stdout[-1500:])
                continue
            tb = tests()
            r1 = demo(d)
            ok = r0[0] == 0 and r1[0] != 0 and not tb
            env = dict(os.environ, VERIF_REPO=W)
            c = sh("./check %s quick" % b["prop"], V, env=env, timeout=1200)
            last = [x for x in c.stdout.splitlines() if "[" in x][:2]
            print("%s %s demo %s->%s tests_failed=%s own_lines=%s check rc=%d %s" % (
                i, "KEPT" if ok else "REJECTED", r0, r1, tb, own, c.returncode, last),
                flush=True)
        finally:
            sh("git checkout -q -- .")
            if not ok:
                shutil.rmtree(d, ignore_errors=True)
    sh("ninja -C _build -j8")


main()
