"""Builds the simulator and one driver per property from /repo's working tree.

Everything lands in /verif/build, keyed by the content of what was compiled, so a
changed tree is always recompiled and an unchanged one never is."""
import hashlib, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "smart_dnn")
BUILD = os.path.join(VERIF, "build")
PROPS = sorted(f[:-4].upper() for f in os.listdir(os.path.join(VERIF, "props"))
               if f.startswith("c") and f.endswith(".cpp") and f[1:3].isdigit())

STD = ("algorithm cassert cmath functional iostream limits memory numeric optional "
       "sstream stdexcept string vector unordered_map typeinfo cstdint fstream random").split()
RT_FLAGS = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-Wall", "-Wextra"]
DRV_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS",
             "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset",
             "-fno-builtin-memcmp", "-w"]
LINK = ["-no-pie", "-ldl", "-lpthread"]
# block operations of the library's objects go through the simulator, those of the simulator do not
REDEF = ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in ("memmove", "memcpy", "memset", "memcmp")]


LOCK = threading.Lock()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def files_under(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(r, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        h.update(read(p))
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def lib_files():
    return [p for p in files_under(LIB)]


def publish(tmp, final):
    os.makedirs(os.path.dirname(final), exist_ok=True)
    os.replace(tmp, final)


def runtime():
    sim = os.path.join(VERIF, "sim")
    key = digest([os.path.join(sim, f) for f in sorted(os.listdir(sim))], " ".join(RT_FLAGS))
    out = []
    for n, extra in (("rt", ["-fno-builtin"]), ("harness", [])):
        o = os.path.join(BUILD, "rt-" + key, n + ".o")
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = o + ".%d" % os.getpid()
            run(["g++"] + RT_FLAGS + extra + ["-c", os.path.join(sim, n + ".cpp"), "-o", tmp])
            publish(tmp, o)
        out.append(o)
    return key, out


def include_dir():
    """Lower-case aliases: the library includes smart_dnn/debugging/Logger.hpp."""
    d = os.path.join(BUILD, "alias", "smart_dnn")
    with LOCK:
        return alias(d)


def alias(d):
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(LIB):
        p, q = os.path.join(LIB, n), os.path.join(d, n.lower())
        if os.path.isdir(p) and n != n.lower() and not os.path.exists(os.path.join(LIB, n.lower())):
            if not os.path.islink(q) or os.readlink(q) != p:
                tmp = q + ".%d" % os.getpid()
                os.symlink(p, tmp)
                os.replace(tmp, q)
    return os.path.join(BUILD, "alias")


def driver(prop):
    """Returns (path of the driver, seconds spent building)."""
    t0 = time.time()
    src = os.path.join(VERIF, "props", prop.lower() + ".cpp")
    text = read(src).decode()
    omp = "// build: no-openmp" not in text
    rtkey, objs = runtime()
    extra = sorted(os.path.join(VERIF, "props", f) for f in os.listdir(os.path.join(VERIF, "props")) if f.endswith(".hpp"))
    flags = DRV_FLAGS + (["-fopenmp"] if omp else [])
    key = digest(lib_files() + [src] + extra, rtkey + " ".join(flags + STD + REDEF))
    exe = os.path.join(BUILD, "drv", "%s-%s" % (prop, key))
    if os.path.exists(exe):
        os.utime(exe)
        return exe, time.time() - t0
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    inc = []
    for h in STD:
        inc += ["-include", h]
    inc += ["-I", REPO, "-I", LIB, "-I", include_dir(), "-I", os.path.join(VERIF, "sim"), "-I", os.path.join(VERIF, "props")]
    pid = os.getpid()
    tmps = []
    try:
        srcs = [src] + [p for p in lib_files() if p.endswith((".cpp", ".cc", ".cxx"))]
        procs = []
        for i, s in enumerate(srcs):
            o = "%s.%d.%d.o" % (exe, pid, i)
            tmps.append(o)
            procs.append((s, subprocess.Popen(["g++"] + flags + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("cannot compile %s:\n%s" % (s, out[-6000:]))
        for o in tmps:
            run(["objcopy"] + REDEF + [o])
        tmp = "%s.%d" % (exe, pid)
        # the driver's objects come first: its instrumented template instances win
        run(["g++"] + tmps + objs + LINK + ["-o", tmp])
        publish(tmp, exe)
    finally:
        for o in tmps:
            if os.path.exists(o):
                os.unlink(o)
    prune()
    return exe, time.time() - t0


def prune(keep=120):
    d = os.path.join(BUILD, "drv")
    fs = sorted((os.path.join(d, f) for f in os.listdir(d) if not f.endswith(".o")), key=os.path.getmtime)
    for f in fs[:-keep]:
        try:
            os.unlink(f)
        except OSError:
            pass


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    props = sys.argv[1:] or PROPS
    runtime()
    with ThreadPoolExecutor(8) as ex:
        for p, (e, s) in zip(props, ex.map(driver, props)):
            print("built %s in %.1f s: %s" % (p, s, e))
