"""Builds a harness together with /repo's current sources (content-hash cache)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "/usr/bin/g++"

BASE = ["-std=c++17", "-pthread", "-DNDEBUG", "-w",
        "-DBOOST_ALL_NO_LIB", "-DGLOG_CUSTOM_PREFIX_SUPPORT",
        "-DGFLAGS_IS_A_DLL=0",
        # uninitialised automatic variables hold a fixed, implausible value
        "-ftrivial-auto-var-init=pattern"]
VARIANTS = {
    "opt": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr,alignment,null", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
INC = ["-I" + REPO + "/include", "-I" + REPO + "/McCalib/include",
       "-I" + REPO + "/McCalib/src", "-isystem", "/usr/include/opencv4",
       "-isystem", "/usr/include/eigen3", "-I" + VERIF + "/mc"]
OCV = ["aruco", "calib3d", "imgcodecs", "highgui", "imgproc", "features2d",
       "flann", "core"]
LIBDIR = "/usr/lib/x86_64-linux-gnu/"
LIBS = [LIBDIR + "libopencv_%s.so" % m for m in OCV] + [
    "-lceres", "-lglog"] + [
    LIBDIR + "libboost_%s.a" % m
    for m in ("log", "thread", "filesystem", "chrono", "atomic", "system")]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    hs = []
    for d in (REPO + "/McCalib/include", REPO + "/McCalib/src", REPO + "/include",
              VERIF + "/mc"):
        for p in sorted(glob.glob(d + "/**/*", recursive=True)):
            if p.endswith((".h", ".hpp", ".hh", ".inl", ".ipp")):
                hs.append(sha(p, read(p)))
    return sha(*hs)


def compile_one(job):
    src, flags, hh = job
    key = sha(src, read(src), " ".join(flags), hh)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, "%s:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, obj)
    return obj, None


def build(name, harness, variant="opt", extra_flags=(), repo_sources=None,
          mc_sources=("rng.cpp",), app=None, link_flags=(), extra_units=()):
    """Returns the path of the executable. app: None or list of
    (source, renamed main)."""
    hh = headers_hash()
    flags = BASE + VARIANTS[variant] + INC
    jobs = []
    if repo_sources is None:
        repo_sources = sorted(glob.glob(REPO + "/McCalib/src/*.cpp"))
    else:
        repo_sources = [REPO + "/McCalib/src/" + s for s in repo_sources]
    hflags = flags + list(extra_flags)
    jobs.append((os.path.join(VERIF, "harness", harness), hflags, hh))
    for s in repo_sources:
        jobs.append((s, flags, hh))
    if variant == "opt":  # the sanitizers own the heap of theirs
        jobs.append((os.path.join(VERIF, "mc", "heap.cpp"),
                     flags + ["-fno-builtin"], hh))
    for s in mc_sources:
        fl = flags if s != "sched.cpp" else [f for f in flags if "sanitize" not in f]
        jobs.append((os.path.join(VERIF, "mc", s), fl, hh))
    for src, mainname in (app or []):
        jobs.append((REPO + "/" + src, flags + ["-Dmain=" + mainname], hh))
    for src, fl in extra_units:
        jobs.append((os.path.join(VERIF, "harness", src), flags + list(fl), hh))
    # biggest first
    jobs.sort(key=lambda j: -("McCalib.cpp" in j[0]) * 10 - ("harness" in j[0]))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs))
        raise SystemExit("build of %s failed" % name)
    objs = [o for o, _ in res]
    key = sha(*sorted(objs), " ".join(link_flags), variant)
    exe = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-pthread", "-rdynamic"] + VARIANTS[variant] + objs +
                           list(link_flags) + LIBS + ["-ldl", "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
            raise SystemExit("link of %s failed" % name)
        os.replace(tmp, exe)
    return exe


def prune(limit=6 << 30):
    """Keeps the cache bounded."""
    files = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in files)
    for _, s, p in sorted(files):
        if tot <= limit:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= s
