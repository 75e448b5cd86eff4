"""Builds metaproxy's library sources from /repo's working tree against the
YAZ++ stand-in in /verif/shim, and the harness programs in /verif/harness.

Objects are cached under /verif/build by a hash of everything they depend on,
so that a rebuild after a small change compiles only what changed."""
import hashlib, os, re, subprocess, sys, shlex, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
CONFIG = """#define HAVE_DLFCN_H 1
#define HAVE_DL_SUPPORT 1
#define HAVE_GETRLIMIT 1
#define HAVE_LOCALTIME_R 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "metaproxy"
#define VERSION "0.0.0"
#define VERSION_SHA1 ""
"""
VARIANTS = {
    "plain": ["-g0", "-O1"],
    "asan": ["-g1", "-O1", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}

class BuildError(Exception):
    pass

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace")

def pkg(*a):
    return shlex.split(subprocess.check_output(["pkg-config", *a], text=True))

_pkg = {}
def yaz_cflags():
    if "c" not in _pkg:
        _pkg["c"] = pkg("--cflags", "yaz", "libxml-2.0", "libxslt", "libexslt")
    return _pkg["c"]

def yaz_libs():
    if "l" not in _pkg:
        _pkg["l"] = pkg("--libs", "yaz", "libxml-2.0", "libxslt", "libexslt")
    return _pkg["l"] + ["-lboost_thread", "-lboost_system", "-lboost_regex",
                        "-ldl", "-lpthread"]

def lib_sources():
    """The .cpp words of libmetaproxy_la_SOURCES (with $(filter_src))."""
    am = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    var = {}
    for m in re.finditer(r"^([A-Za-z_]+)[ \t]*\+?=([^\n]*)", am, re.M):
        var[m.group(1)] = var.get(m.group(1), "") + " " + m.group(2)
    def words(v, depth=0):
        out = []
        for w in var.get(v, "").split():
            m = re.match(r"\$\((\w+)\)$", w)
            if m and depth < 5:
                out += words(m.group(1), depth + 1)
            else:
                out.append(w)
        return out
    res = []
    for w in words("libmetaproxy_la_SOURCES"):
        if w.endswith(".cpp") and w not in res and os.path.exists(os.path.join(SRC, w)):
            res.append(w)
    return res

def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()

def _headers(*more):
    hs = []
    for d in (SRC, os.path.join(REPO, "include"), os.path.join(VERIF, "shim"), *more):
        for r, _, fs in os.walk(d):
            hs += [os.path.join(r, f) for f in fs if f.endswith((".hpp", ".h"))]
    return _hash_files(hs)

def _write_config():
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != CONFIG:
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(CONFIG)
        os.replace(tmp, p)
    return d

def compile_one(src, variant, hdr, extra=()):
    flags = VARIANTS[variant] + ["-std=c++14", "-w", "-pthread"] + list(extra)
    inc = ["-I" + _write_config(), "-I" + os.path.join(VERIF, "shim", "include"),
           "-I" + os.path.join(REPO, "include"), "-I" + SRC,
           "-I" + os.path.join(VERIF, "harness")] + yaz_cflags()
    key = hashlib.sha256((hdr + _hash_files([src]) + " ".join(flags) + src)
                         .encode()).hexdigest()[:24]
    od = os.path.join(BUILD, "obj", variant)
    os.makedirs(od, exist_ok=True)
    base = os.path.basename(src)[:-4]
    obj = os.path.join(od, "%s-%s.o" % (base, key))
    if os.path.exists(obj):
        return obj, None
    for f in os.listdir(od):          # drop stale objects of the same source
        if re.match(re.escape(base) + r"-[0-9a-f]{24}\.o$", f):
            try:
                os.unlink(os.path.join(od, f))
            except OSError:
                pass
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh(["g++", *flags, *inc, "-c", src, "-o", tmp])
    if r.returncode:
        return None, r.stdout
    os.replace(tmp, obj)
    return obj, None

_lib = {}
def build_lib(variant="plain", need=None):
    """-> archive path. need: base names that must compile."""
    if variant in _lib:
        ar, failed = _lib[variant]
    else:
        hdr = _headers()
        srcs = [os.path.join(SRC, s) for s in lib_sources()]
        srcs.append(os.path.join(VERIF, "shim", "yazpp_shim.cpp"))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: compile_one(s, variant, hdr), srcs))
        failed = {os.path.basename(s): e for s, (o, e) in zip(srcs, res) if not o}
        objs = [o for o, e in res if o]
        key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
        ar = os.path.join(BUILD, "libmp-%s-%s.a" % (variant, key))
        if not os.path.exists(ar):
            for f in os.listdir(BUILD):
                if f.startswith("libmp-%s-" % variant):
                    try:
                        os.unlink(os.path.join(BUILD, f))
                    except OSError:
                        pass
            tmp = ar + ".tmp%d" % os.getpid()
            r = sh(["ar", "rcs", tmp, *objs])
            if r.returncode:
                raise BuildError(r.stdout)
            os.replace(tmp, ar)
        _lib[variant] = (ar, failed)
    for n in need or ():
        if n in failed:
            raise BuildError("%s does not compile:\n%s" % (n, failed[n][-3000:]))
    return ar

def build_harness(name, variant="plain", need=None, extra_src=(), ldflags=(), static_objs=()):
    """Links harness/<name>.cpp with the library; -> executable path."""
    ar = build_lib(variant, need)
    hdr = _headers(os.path.join(VERIF, "harness"))
    objs = []
    for s in [name + ".cpp", *extra_src]:
        o, e = compile_one(os.path.join(VERIF, "harness", s), variant, hdr)
        if not o:
            raise BuildError(e[-4000:])
        objs.append(o)
    bd = os.path.join(BUILD, "bin")
    os.makedirs(bd, exist_ok=True)
    key = hashlib.sha256((" ".join(objs) + ar + " ".join(ldflags)).encode()).hexdigest()[:16]
    exe = os.path.join(bd, "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        for f in os.listdir(bd):
            if f.startswith("%s-%s-" % (name, variant)):
                try:
                    os.unlink(os.path.join(bd, f))
                except OSError:
                    pass
        tmp = exe + ".tmp%d" % os.getpid()
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
        r = sh(["g++", *san, "-pthread", "-rdynamic", *objs, ar, *ldflags, *yaz_libs(), "-o", tmp])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe

if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain"]):
        ar = build_lib(v)
        print(ar, {k: e[:600] for k, e in _lib[v][1].items()})
