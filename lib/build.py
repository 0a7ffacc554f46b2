"""Builds libunicode from /repo's current working tree into /verif/build (git-ignored).

The tree is copied without the generated tables (they are regenerated by the tree's own generator),
so a stale table can never hide a change."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
UCD = "/usr/share/unicode"
GEN = {"ucd.cpp", "ucd.h", "ucd_enums.h", "ucd_fmt.h", "ucd_ostream.h", "case_normalization_data.h",
       "codepoint_properties_data.h", "codepoint_properties_data.cpp", "codepoint_properties_names.cpp"}
SKIP_DIRS = {".git", "_build", "build", "out", "_deps", "_ucd", ".cache", ".vscode", "target", "sandbox"}


class BuildError(Exception):
    pass


def source_files():
    res = []
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
        dirs.sort()
        for f in sorted(files):
            r = os.path.normpath(os.path.join(rel, f))
            if os.path.dirname(r) == "src/libunicode" and f in GEN:
                continue
            p = os.path.join(base, f)
            if os.path.isfile(p) and not os.path.islink(p):
                res.append(r)
    return res


def source_hash(files):
    h = hashlib.sha256()
    for r in files:
        h.update(r.encode() + b"\0")
        with open(os.path.join(REPO, r), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def run(cmd, log, **kw):
    with open(log, "ab") as l:
        l.write(("$ " + (" ".join(cmd) if isinstance(cmd, list) else cmd) + "\n").encode())
        l.flush()
        r = subprocess.run(cmd, stdout=l, stderr=subprocess.STDOUT, env=dict(os.environ, CCACHE_DISABLE="1", LC_ALL="C.UTF-8"), **kw)
    return r.returncode


# variant -> (cmake options, CXX flags)
VARIANTS = {
    "default": ([], "-O2"),
    "none": (["-DLIBUNICODE_SIMD_IMPLEMENTATION=none"], "-O2"),
    "std": (["-DLIBUNICODE_SIMD_IMPLEMENTATION=std"], "-O2"),
    "tsan": ([], "-O1 -g -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0"),
    "checked": ([], "-O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"),
    "pattern": ([], "-O1 -ftrivial-auto-var-init=pattern"),
    "zero": ([], "-O1 -ftrivial-auto-var-init=zero"),
    "counted": ([], "-O1 -fsanitize-coverage=trace-pc -D_GLIBCXX_EXTERN_TEMPLATE=0"),
    "tools": (["-DLIBUNICODE_TOOLS=ON"], "-O2"),
    "debugassert": ([], "-O2 -D_GLIBCXX_ASSERTIONS"),
    "gcc-O0-unsigned-char": ([], "-O0 -funsigned-char"),
    "gcc-O3-none": (["-DLIBUNICODE_SIMD_IMPLEMENTATION=none"], "-O3 -DNDEBUG -funroll-loops -fno-strict-overflow"),
    "gcc-O2-std-unsigned-char": (["-DLIBUNICODE_SIMD_IMPLEMENTATION=std"], "-O2 -funsigned-char"),
    "clang-O2": (["-DCMAKE_CXX_COMPILER=clang++"], "-O2 -DNDEBUG"),
    "gcc-O2-shared-native": (["-DLIBUNICODE_BUILD_STATIC=OFF"], "-O2 -march=native"),
    "clang-O1-none-unsigned-char": (["-DCMAKE_CXX_COMPILER=clang++", "-DLIBUNICODE_SIMD_IMPLEMENTATION=none"], "-O1 -funsigned-char"),
}


class Lib:
    def __init__(self, src, b, variant):
        self.src, self.b, self.variant = src, b, variant
        self.include = os.path.join(src, "src")
        d = os.path.join(b, "src/libunicode")
        if "-DLIBUNICODE_BUILD_STATIC=OFF" in VARIANTS[variant][0]:
            self.archives = [os.path.join(d, "libunicode.so"), os.path.join(d, "libunicode_ucd.so"), "-Wl,-rpath," + d]
        else:
            self.archives = [os.path.join(d, "libunicode.a"), os.path.join(d, "libunicode_ucd.a")]


def lib(variant="default"):
    """Returns a built Lib for the current /repo tree."""
    os.makedirs(BUILD, exist_ok=True)
    files = source_files()
    key = source_hash(files)
    top = os.path.join(BUILD, "lib-" + key)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # keep at most 4 trees
        trees = sorted((d for d in os.listdir(BUILD) if d.startswith("lib-")),
                       key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in trees[:-4]:
            if d != "lib-" + key:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        src = os.path.join(top, "src")
        if not os.path.exists(os.path.join(top, ".copied")):
            shutil.rmtree(top, ignore_errors=True)
            for r in files:
                d = os.path.join(src, r)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, r), d)
            open(os.path.join(top, ".copied"), "w").close()
        os.utime(top)
        # The first build of a tree generates the tables; the others reuse them (same generator).
        b = os.path.join(top, "b-" + variant)
        L = Lib(src, b, variant)
        if not os.path.exists(os.path.join(b, ".ok")):
            shutil.rmtree(b, ignore_errors=True)
            os.makedirs(b)
            opts, flags = VARIANTS[variant]
            log = os.path.join(b, "build.log")
            if variant != "default" and not os.path.exists(os.path.join(src, "src/libunicode/ucd.h")):
                _generate(top, src)
            rc = run(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=Release",
                      "-DCMAKE_CXX_FLAGS_RELEASE=" + flags, "-DCMAKE_CXX_FLAGS=-Wno-error",
                      "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                      "-DLIBUNICODE_TESTING=OFF", "-DLIBUNICODE_BENCHMARK=OFF", "-DLIBUNICODE_TOOLS=OFF", "-DLIBUNICODE_EXAMPLES=OFF",
                      "-DLIBUNICODE_BUILD_STATIC=ON", "-DLIBUNICODE_UCD_DIR=" + UCD, "-DLIBUNICODE_UCD_VERSION=15.1.0",
                      "-Wno-dev"] + opts, log)
            if rc == 0:
                rc = run(["ninja", "-C", b, "unicode", "unicode_ucd"] + (["unicode-query"] if variant == "tools" else []), log)
            if rc != 0:
                sys.stderr.write(open(log, errors="replace").read()[-6000:])
                raise BuildError("libunicode does not build (variant %s), log: %s" % (variant, log))
            open(os.path.join(b, ".ok"), "w").close()
    return L


def _generate(top, src, name="b-gen", target="unicode_ucd"):
    """Runs the tree's own table generator once (plain flags), so that variants reuse its output."""
    b = os.path.join(top, name)
    os.makedirs(b, exist_ok=True)
    log = os.path.join(b, "build.log")
    rc = run(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=Release",
              "-DCMAKE_CXX_FLAGS_RELEASE=-O1", "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON",
              "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DLIBUNICODE_TESTING=OFF", "-DLIBUNICODE_BENCHMARK=OFF",
              "-DLIBUNICODE_TOOLS=OFF", "-DLIBUNICODE_EXAMPLES=OFF", "-DLIBUNICODE_BUILD_STATIC=ON",
              "-DLIBUNICODE_UCD_DIR=" + UCD, "-DLIBUNICODE_UCD_VERSION=15.1.0", "-Wno-dev"], log)
    if rc == 0:
        rc = run(["ninja", "-C", b, target], log)
    if rc != 0:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        raise BuildError("table generation failed, log: " + log)


def tablegen(L):
    """The tree's table generator (built when the tables were; otherwise built from a copy without tables)."""
    top = os.path.dirname(L.src)
    for b in ("b-default", "b-gen", "b-tool"):
        t = os.path.join(top, b, "src/libunicode/unicode_tablegen")
        if os.path.exists(t):
            return t
    src, b = os.path.join(top, "src-tool"), os.path.join(top, "b-tool")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(L.src, src, ignore=lambda d, names: [n for n in names if n in GEN and os.path.basename(d) == "libunicode"])
    _generate(top, src, "b-tool", "unicode_tablegen")
    return t


def weakened(L, symbols):
    """Copies of the archives in which the given (mangled) symbols are weak, so a harness can define them."""
    out = []
    for a in L.archives:
        w = a[:-2] + "-weak.a"
        if not os.path.exists(w):
            log = os.path.join(L.b, "weaken.log")
            if run(["objcopy"] + ["--weaken-symbol=" + s for s in symbols] + [a, w + ".tmp"], log) != 0:
                raise BuildError("objcopy failed, log: " + log)
            os.rename(w + ".tmp", w)
        out.append(w)
    return out


def compile_harness(L, name, sources, flags=(), libs=(), link=True, extra_objs=(), cxx="g++", archives=None):
    """Compiles a harness against L; returns the executable's path. Rebuilt when sources change."""
    vsrc = os.path.join(VERIF, "src")
    h = hashlib.sha256()
    for f in sorted(os.listdir(vsrc)):
        if f.endswith((".hpp", ".h", ".cpp", ".c")) and (f in sources or f.endswith((".hpp", ".h"))):
            h.update(open(os.path.join(vsrc, f), "rb").read())
    h.update(repr((sources, flags, libs, extra_objs, cxx, archives)).encode())
    exe = os.path.join(L.b, "h-%s-%s" % (name, h.hexdigest()[:12]))
    if os.path.exists(exe):
        return exe
    log = exe + ".log"
    cmd = [cxx, "-std=c++20", "-O2", "-pthread", "-I" + L.include, "-I" + os.path.join(VERIF, "src")]
    cmd += list(flags) + [os.path.join(vsrc, s) for s in sources] + list(extra_objs)
    cmd += ((archives or L.archives) if link else []) + list(libs) + ["-o", exe + ".tmp"]
    rc = run(cmd, log)
    if rc != 0:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        raise BuildError("harness %s does not compile against this tree, log: %s" % (name, log))
    os.rename(exe + ".tmp", exe)
    return exe


def compile_object(L, source, flags):
    """Compiles one file of src/ with the flags of L's build (instrumentation); returns the object."""
    vsrc = os.path.join(VERIF, "src")
    h = hashlib.sha256(repr(list(flags)).encode())
    for f in sorted(os.listdir(vsrc)):
        if f == source or f.endswith((".hpp", ".h")):
            h.update(open(os.path.join(vsrc, f), "rb").read())
    obj = os.path.join(L.b, "%s-%s.o" % (source.split(".")[0], h.hexdigest()[:12]))
    log = obj + ".log"
    if not os.path.exists(obj):
        if run(["g++", "-std=c++20", "-pthread"] + list(flags) + ["-I" + L.include, "-I" + vsrc, "-c", os.path.join(vsrc, source), "-o", obj + ".tmp"], log):
            sys.stderr.write(open(log, errors="replace").read()[-6000:])
            raise BuildError("%s does not compile against this tree, log: %s" % (source, log))
        os.rename(obj + ".tmp", obj)
    return obj


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["default"]:
        print(lib(v).b, "%.1fs" % (time.time() - t))
