"""Compiles the library from the current working tree of /repo, plus the drivers, into /verif/build.

Objects and drivers are cached under a hash of everything that goes into them (sources, headers, flags), so a change in
the library always rebuilds. Every .cpp of the library is compiled on its own and goes into an archive, so that a driver
only depends on the parts it uses."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "build")
COMMON = ["-w", "-DNDEBUG", "-g", "-include", "cstdint", "-ftrivial-auto-var-init=pattern"]   # what is read without being written is not by chance 0
VARIANTS = {
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "fast": ["-O2"],
}
LIBS = ["-lgmpxx", "-lgmp", "-lcrypto"]
LINK = {"d_opprf_open": ["-Wl,--allow-multiple-definition"]}   # the driver's own functions come before the library's
CXX = os.environ.get("VF_CXX", "g++")


class BuildFailed(Exception):
    """the library no longer compiles or links for the use the driver makes of it"""


class ToolchainBroken(Exception):
    pass


def _digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def headers():
    r = []
    for e in ("hpp", "h", "hh", "inc", "ipp", "tpp"):
        r += glob.glob(REPO + "/includes/**/*." + e, recursive=True) + glob.glob(REPO + "/src/**/*." + e, recursive=True)
    return sorted(r)


def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + p.stdout)
    return p.returncode == 0


def _toolchain_ok(dirn):
    src = os.path.join(dirn, "probe.cpp")
    with open(src, "w") as f:
        f.write("#include <gmpxx.h>\n#include <openssl/evp.h>\nint main() { mpz_class a(3); return EVP_aes_128_ctr() == 0 || a != 3; }\n")
    return _run([CXX] + COMMON + VARIANTS["san"] + [src, "-o", src + ".bin"] + LIBS, src + ".log") and subprocess.run([src + ".bin"]).returncode == 0


def build(needs):
    """needs: iterable of (driver, variant). Returns {(driver, variant): path or BuildFailed}."""
    needs = sorted(set(needs))
    hs, srcs = headers(), sources()
    harness = [os.path.join(HERE, "harness", "proto.hpp")]
    inc = ["-I" + REPO + "/includes"]
    key = _digest(hs + srcs + sorted(glob.glob(HERE + "/harness/*")), [VARIANTS, COMMON, LIBS, LINK, REPO])
    dirn = os.path.join(OUT, key)
    os.makedirs(dirn, exist_ok=True)
    for old in os.listdir(OUT):  # keep the disk small: only this tree's build
        if old != key and os.environ.get("VF_KEEP") is None:
            shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
    tmp = ".%d.tmp" % os.getpid()
    jobs, res = [], {}

    def obj(s, v):
        return os.path.join(dirn, v + "_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")

    def dobj(d, v):
        return os.path.join(dirn, v + "_" + d + ".main.o")

    todo = [(d, v) for d, v in needs if not os.path.exists(os.path.join(dirn, v + "_" + d))]
    for v in sorted({v for _, v in todo}):
        for s in srcs:
            if not os.path.exists(obj(s, v)):
                jobs.append((s, obj(s, v), v))
    for d, v in todo:
        s = os.path.join(HERE, "harness", d + ".cpp")
        if not os.path.exists(dobj(d, v)):
            jobs.append((s, dobj(d, v), v))

    def compile_one(j):
        s, o, v = j
        cmd = [CXX] + COMMON + VARIANTS[v] + inc + ["-I" + os.path.join(HERE, "harness"), "-c", s, "-o", o + tmp]
        if _run(cmd, o + ".log"):
            os.rename(o + tmp, o)
            return True
        return False

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(compile_one, jobs))

        def link(dv):
            d, v = dv
            out = os.path.join(dirn, v + "_" + d)
            if os.path.exists(out):
                return dv, out
            lib = os.path.join(dirn, v + "_lib_" + d + tmp + ".a")
            objs = [obj(s, v) for s in srcs if os.path.exists(obj(s, v))]
            log = out + ".link.log"
            if not os.path.exists(dobj(d, v)):
                return dv, BuildFailed(dobj(d, v) + ".log")
            if objs and not _run(["ar", "rcs", lib] + objs, log):
                return dv, BuildFailed(log)
            ok = _run([CXX] + VARIANTS[v] + [dobj(d, v), "-o", out + tmp] + ([lib] if objs else []) + LIBS + LINK.get(d, []), log)
            if os.path.exists(lib):
                os.unlink(lib)
            if not ok:
                return dv, BuildFailed(log)
            os.rename(out + tmp, out)
            return dv, out

        for dv, r in ex.map(link, needs):
            res[dv] = r
    bad = [r for r in res.values() if isinstance(r, BuildFailed)]
    if bad and not _toolchain_ok(dirn):
        raise ToolchainBroken("the compiler cannot build a trivial program: " + dirn)
    return res


def build_log(path):
    """the compiler output behind a BuildFailed, with the logs of library files that did not compile"""
    out = []
    for p in [path] + sorted(glob.glob(os.path.join(os.path.dirname(path), "*.o.log"))):
        if os.path.exists(p) and os.path.getsize(p):
            with open(p, errors="replace") as f:
                out.append(f.read()[:6000])
    return "\n".join(dict.fromkeys(out))
