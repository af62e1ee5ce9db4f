"""Compile /repo's sources to LLVM bitcode and dump the normalised program.

Nothing under /repo is written.  The configured header (MSTK_defines.h) is
produced from its template here, the way CMake does.
"""
import os, re, sys, json, hashlib, subprocess, shutil, tempfile, pickle, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSTK_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANG = "/usr/bin/clang"
LLVM_CONFIG = "/usr/lib/llvm-18/bin/llvm-config"
DIRS = ["base", "hilev", "io", "misc", "util", "mod", "par"]
MPI_INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include",
           "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
TPL_INC = ["/usr/include/trilinos"]


class Broken(Exception):
    """The analysis cannot be carried out (error exit, never a verdict)."""


def tool():
    """Build (once) the IR dumper."""
    src = os.path.join(HERE, "tool", "irdump.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.run([LLVM_CONFIG, "--cxxflags", "--ldflags"], capture_output=True, text=True, check=True).stdout.split()
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["/usr/bin/clang++", "-O1", "-w", src, "-o", tmp] + fl + ["-fexceptions", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build irdump: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def sources():
    s = []
    for d in DIRS:
        s += sorted(glob.glob(os.path.join(REPO, "src", d, "*.c")))
    return s


CONFIGS = {
    # the configuration /opt/vp/build.sh builds
    "default": dict(mpi=True, defs=["-DENABLE_ExodusII", "-DMETIS_5", "-D_MSTK_HAVE_METIS", "-D_MSTK_HAVE_ZOLTAN", "-DNDEBUG"]),
    # optional configurations of CMakeLists.txt
    "markers": dict(mpi=True, defs=["-DENABLE_ExodusII", "-DMETIS_5", "-D_MSTK_HAVE_METIS", "-D_MSTK_HAVE_ZOLTAN", "-DNDEBUG", "-DMSTK_USE_MARKERS"]),
    # default, with the uninitialised values of local variables made explicit
    "undef": dict(undef=True, mpi=True, defs=["-DENABLE_ExodusII", "-DMETIS_5", "-D_MSTK_HAVE_METIS", "-D_MSTK_HAVE_ZOLTAN", "-DNDEBUG"]),
    "serial": dict(mpi=False, defs=["-DENABLE_ExodusII", "-DNDEBUG"], skip=["par"]),
}


def configured_include(dst, mpi):
    os.makedirs(dst, exist_ok=True)
    ver = {}
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"MSTK_VERSION_%s\s+\"?(\d+)" % k, cm)
        ver[k] = m.group(1) if m else "0"
    for h in glob.glob(os.path.join(REPO, "include", "*.h")):
        t = open(h, errors="replace").read()
        if os.path.basename(h) == "MSTK_defines.h":
            for k in ver:
                t = t.replace("@MSTK_VERSION_%s@" % k, ver[k])
            t = re.sub(r"#cmakedefine\s+MSTK_HAVE_MPI", "#define MSTK_HAVE_MPI" if mpi else "/* no MPI */", t)
            t = re.sub(r"#cmakedefine\s+(\w+)", r"/* no \1 */", t)
        with open(os.path.join(dst, os.path.basename(h)), "w") as f:
            f.write(t)


def cflags(cfg, inc):
    c = CONFIGS[cfg]
    f = ["-std=c99", "-I" + inc] + c["defs"]
    for i in (MPI_INC if c["mpi"] else []) + TPL_INC:
        f.append("-I" + i)
    return f


def cfg_sources(cfg):
    skip = CONFIGS[cfg].get("skip", [])
    return [s for s in sources() if os.path.basename(os.path.dirname(s)) not in skip]


def digest(extra=""):
    h = hashlib.sha256()
    for p in sources() + sorted(glob.glob(os.path.join(REPO, "include", "*.h"))) + \
            [os.path.join(HERE, "tool", "irdump.cc"), os.path.join(HERE, "lib", "keep.txt"), os.path.join(HERE, "lib", "build.py"),
             os.path.join(HERE, "lib", "ir.py")]:
        if os.path.exists(p):
            h.update(p.encode())
            h.update(open(p, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:24]


def dump(cfg="default"):
    """Path of the JSON-lines dump of the whole library in configuration cfg."""
    d = digest(cfg)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, cfg + "-" + d + ".jsonl")
    if os.path.exists(out):
        return out
    t = tool()
    srcs = cfg_sources(cfg)
    if len(srcs) < 100 if cfg != "serial" else len(srcs) < 80:
        raise Broken("only %d sources found under %s/src" % (len(srcs), REPO))
    tmp = tempfile.mkdtemp(prefix="mstkir")
    try:
        inc = os.path.join(tmp, "include")
        configured_include(inc, CONFIGS[cfg]["mpi"])
        fl = cflags(cfg, inc)

        def one(s):
            o = os.path.join(tmp, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".bc")
            r = subprocess.run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-discard-value-names",
                                "-emit-llvm", "-fdebug-compilation-dir=/nowhere", "-c", s, "-o", o] + fl, cwd=tmp, capture_output=True, text=True)
            return o, s, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        bad = [(s, r.stderr[-600:]) for o, s, r in res if r.returncode]
        if bad:
            raise Broken("does not compile: %s" % bad[:2])
        keep = os.path.join(HERE, "lib", "keep.txt")
        if not os.path.exists(keep):
            keep = "/dev/null"
        tmpo = os.path.join(tmp, "out.jsonl")
        r = subprocess.run([t, keep, tmpo] + [o for o, _, _ in res], capture_output=True, text=True,
                           env=dict(os.environ, IRDUMP_UNDEF="1") if CONFIGS[cfg].get("undef") else None)
        if r.returncode:
            raise Broken("irdump failed: " + r.stderr[-2000:])
        # keep the cache small
        old = sorted(glob.glob(os.path.join(cache, cfg + "-*")), key=os.path.getmtime)
        for p in old[:-4]:
            try:
                os.remove(p)
            except OSError:
                pass
        shutil.move(tmpo, out + ".tmp%d" % os.getpid())
        os.rename(out + ".tmp%d" % os.getpid(), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(dump(sys.argv[1] if len(sys.argv) > 1 else "default"))
