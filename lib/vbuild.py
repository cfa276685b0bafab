"""Builds sanitized variants of RadarKit from /repo's current working tree, and the harnesses.

Objects are cached in /verif/.build/<variant>/ by a hash of (source, all headers, included sources, flags), so a
changed tree is always rebuilt and an unchanged one is not."""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

COMMON = ["-std=gnu11", "-g", "-O1", "-fno-omit-frame-pointer", "-march=haswell", "-mfpmath=sse", "-D_GNU_SOURCE",
          "-DRK_VERIFY_HOOKS=1", "-fPIC", "-w", "-I%s/headers" % REPO, "-I%s/headers/RadarKit" % REPO]
VARIANTS = {
    # one sanitizer family per build
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,shift-base,function,float-cast-overflow,float-divide-by-zero",
             "-fsanitize-address-use-after-scope"],
    "tsan": ["-fsanitize=thread"],
    "plain": ["-O2"],
}
LIBS = ["-lfftw3f", "-lnetcdf", "-lpthread", "-lz", "-lm", "-lssl", "-lcrypto", "-lrt"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0"); h.update(_read(p)); h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def library(variant):
    """Static library of /repo/source for a variant; returns its path."""
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    flags = COMMON + VARIANTS[variant]
    cc = "clang"
    sources = sorted(glob.glob(REPO + "/source/*.c"))
    headers = sorted(glob.glob(REPO + "/headers/**/*.h", recursive=True)) + sorted(glob.glob(REPO + "/source/ext/*"))
    headers += sorted(glob.glob(REPO + "/source/**/*.h", recursive=True))
    hdig = _digest([h for h in headers if os.path.isfile(h)], flags)
    with open(os.path.join(out, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        objs, todo = [], []
        for s in sources:
            o = os.path.join(out, "%s.%s.o" % (os.path.basename(s)[:-2], _digest([s], hdig)))
            objs.append(o)
            if not os.path.exists(o):
                todo.append((s, o))

        def comp(so):
            s, o = so
            _run([cc] + flags + ["-c", s, "-o", o + ".tmp"])
            os.replace(o + ".tmp", o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, todo))
        lib = os.path.join(out, "libradarkit.%s.a" % hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
        if not os.path.exists(lib):
            keep = set(objs)
            for f in glob.glob(out + "/*.o") + glob.glob(out + "/*.a"):
                if f not in keep and not os.path.basename(f).startswith("h_"):
                    os.unlink(f)
            if os.path.exists(lib + ".tmp"):
                os.unlink(lib + ".tmp")
            _run(["ar", "rcs", lib + ".tmp"] + objs)
            os.replace(lib + ".tmp", lib)
    return lib


def _incl(src):
    """Text of a harness and of the local headers it includes."""
    t = _read(src).decode()
    for h in re.findall(r'#include "([\w.]+)"', t):
        p = os.path.join(VERIF, "harness", h)
        if os.path.exists(p):
            t += _incl(p)
    return t


def harness(name, variant, extra=()):
    lib = library(variant)
    src = os.path.join(VERIF, "harness", name + ".c")
    deps = [src] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
    deps += [os.path.join(VERIF, "harness", h) for h in re.findall(r'#include "(\w+\.c)"', _read(src).decode())]
    flags = COMMON + VARIANTS[variant] + ["-I" + os.path.join(VERIF, "harness")] + list(extra)
    wraps = sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", _incl(src))))
    link = ["-Wl,--wrap=%s" % w for w in wraps] + LIBS
    exe = os.path.join(BUILD, variant, "h_%s.%s" % (name, _digest(deps, (flags, link, os.path.basename(lib)))))
    if os.path.exists(exe):
        return exe
    for f in glob.glob(os.path.join(BUILD, variant, "h_%s.*" % name)):
        os.unlink(f)
    tmp = exe + ".tmp%d" % os.getpid()
    _run(["clang"] + flags + [src, "-o", tmp, lib] + link)
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "tsan"]:
        print(v, library(v))
