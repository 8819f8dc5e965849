"""Builds the library from /repo's working tree together with a driver, cached by content hash.

Nothing is written into /repo.  Objects and programs go to /verif/build (git-ignored)."""
import os, sys, glob, hashlib, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/usr/bin/python3.12"

BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-DPARTIO_USE_ZLIB", "-w", "-pthread"]
VARIANTS = {
    "asan": ("clang++", "clang", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fsanitize-address-use-after-scope", "-fno-sanitize=vptr,nonnull-attribute"]),
    "tsan": ("clang++", "clang", ["-O1", "-fsanitize=thread"]),
    "plain": ("g++", "gcc", ["-O1"]),
    "gasan": ("g++", "gcc", ["-O1", "-fPIC", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,nonnull-attribute"]),
    "pic": ("g++", "gcc", ["-O1", "-fPIC"]),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_digest(paths):
    return digest(*[x for p in sorted(paths) for x in (os.path.basename(p), read(p))])


def lib_sources():
    return sorted(glob.glob(REPO + "/src/lib/core/*.cpp") + glob.glob(REPO + "/src/lib/io/*.cpp"))


def lib_headers():
    return sorted(glob.glob(REPO + "/src/lib/**/*.h", recursive=True))


def compile_one(src, obj, cxx, flags):
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    sh([cxx, "-c", src, "-o", tmp] + flags)
    os.rename(tmp, obj)
    return obj


def _flags(variant, defines, include):
    cxx, cc, vf = VARIANTS[variant]
    fl = BASE + vf + ["-I" + REPO + "/src/lib"] + ["-D" + d for d in defines]
    for i in include:
        fl += ["-include", os.path.join(VERIF, i)]
    return cxx, fl


def lib_objects(variant, defines=(), include=()):
    """compile jobs (src, obj) for the whole library"""
    cxx, fl = _flags(variant, defines, include)
    hdr = tree_digest(lib_headers() + [os.path.join(VERIF, i) for i in include])
    return cxx, fl, [(s, os.path.join(OUT, "obj", variant, "%s-%s.o" % (os.path.basename(s)[:-4], digest(s, read(s), hdr, fl)))) for s in lib_sources()]


def build(driver, variant="asan", defines=(), include=(), libs=()):
    """driver: file name in /verif/drivers.  Returns the executable's path."""
    os.makedirs(OUT, exist_ok=True)
    cxx, fl, jobs = lib_objects(variant, defines, include)
    src = os.path.join(VERIF, "drivers", driver)
    dh = tree_digest(glob.glob(VERIF + "/drivers/common/*.h") + [src])
    dfl = fl + ["-I" + VERIF + "/drivers/common", "-I" + REPO + "/src/lib/core", "-I" + REPO + "/src/lib/io"]
    hdr = tree_digest(lib_headers())
    dobj = os.path.join(OUT, "obj", variant, "drv-%s-%s.o" % (driver[:-4], digest(dh, hdr, dfl)))
    with ThreadPoolExecutor(max_workers=8) as ex:
        futs = [ex.submit(compile_one, src, dobj, cxx, dfl)]
        futs += [ex.submit(compile_one, s, o, cxx, fl) for s, o in jobs]
        for f in futs:
            f.result()
    objs = [dobj] + [o for _, o in jobs]
    exe = os.path.join(OUT, "bin", "%s-%s-%s" % (driver[:-4], variant, digest(*(objs + list(libs)))))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        sh([cxx] + fl + objs + ["-o", tmp, "-lz", "-lpthread", "-ldl"] + list(libs))
        os.rename(tmp, exe)
    return exe


def build_tool(name, variant="asan"):
    """a tool from /repo/src/tools (C++), linked with the library"""
    cxx, fl, jobs = lib_objects(variant)
    src = REPO + "/src/tools/%s.cpp" % name
    obj = os.path.join(OUT, "obj", variant, "tool-%s-%s.o" % (name, digest(read(src), tree_digest(lib_headers()), fl)))
    with ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(compile_one, src, obj, cxx, fl)] + [ex.submit(compile_one, s, o, cxx, fl) for s, o in jobs]:
            f.result()
    objs = [obj] + [o for _, o in jobs]
    exe = os.path.join(OUT, "bin", "%s-%s-%s" % (name, variant, digest(*objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        sh([cxx] + fl + objs + ["-o", tmp, "-lz", "-lpthread"])
        os.rename(tmp, exe)
    return exe


def build_python(variant="gasan"):
    """the SWIG extension; returns the directory that holds partio.py and _partio.so"""
    cxx, fl, jobs = lib_objects(variant)
    itf = REPO + "/src/py/partio.i"
    key = digest(read(itf), tree_digest(lib_headers()), *[o for _, o in jobs])
    d = os.path.join(OUT, "py", "%s-%s" % (variant, key))
    if os.path.exists(d + "/_partio.so"):
        return d
    inc = sh([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip()
    tmp = "%s.%d" % (d, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    with ThreadPoolExecutor(max_workers=8) as ex:
        def swig():
            sh(["swig", "-c++", "-python", "-includeall", "-I" + REPO + "/src/lib", "-I" + REPO + "/src/py", "-outdir", tmp, "-o", tmp + "/wrap.cpp", itf])
            sh([cxx, "-c", tmp + "/wrap.cpp", "-o", tmp + "/wrap.o", "-I" + inc, "-I" + REPO + "/src/py"] + fl)
        for f in [ex.submit(swig)] + [ex.submit(compile_one, s, o, cxx, fl) for s, o in jobs]:
            f.result()
    sh([cxx, "-shared"] + fl + [tmp + "/wrap.o"] + [o for _, o in jobs] + ["-o", tmp + "/_partio.so", "-lz", "-lpthread"])
    os.remove(tmp + "/wrap.o")
    if os.path.exists(d):
        shutil.rmtree(tmp)
    else:
        os.rename(tmp, d)
    return d


def symbolizer_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1024:"
                         "detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=4096:free_fill_byte=93:max_free_fill_size=512:handle_abort=1:quarantine_size_mb=32:hard_rss_limit_mb=3000")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"
    for c in ("/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer"):
        if os.path.exists(c):
            e["ASAN_SYMBOLIZER_PATH"] = e["UBSAN_SYMBOLIZER_PATH"] = c
            e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + c
            break
    for k in ("LANG", "LC_ALL", "LANGUAGE"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    return e


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"))
