#!/usr/bin/env python3
"""K01: the table generator and unicode-query in other builds and environments.

args: GENERATOR QUERY LIBRARY_SOURCES LOCALES BUILD [--thorough] --out FILE"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from p01 import digest, call
import worlds

a = sys.argv[1:]
tool, query, libsrc, locales, build = a[:5]
out = a[a.index("--out") + 1] if "--out" in a else None
thorough = "--thorough" in a
res = {"complete": True, "capped": False, "states": 0, "transitions": 0, "traces": 0, "samples": [], "notes": [], "extra": {}, "violations": []}


def violation(key, detail):
    for v in res["violations"]:
        if v["key"] == key:
            v["count"] += 1
            return
    res["violations"].append({"key": key, "detail": detail, "count": 1})


PLAIN = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent"}
ENVIRONMENTS = {
    "turkish": dict(PLAIN, LOCPATH=locales, LC_ALL="tr_TR.UTF-8", LANG="tr_TR.UTF-8"),
    "latin1": dict(PLAIN, LOCPATH=locales, LC_ALL="de_DE.ISO-8859-1"),
    "shift-jis": dict(PLAIN, LOCPATH=locales, LC_ALL="ja_JP.SHIFT_JIS"),
    "c-utf8": dict(PLAIN, LC_ALL="C.UTF-8"),
    "variables": dict(PLAIN, COLUMNS="20", LINES="5", TERM="xterm-256color", CLICOLOR_FORCE="1", POSIXLY_CORRECT="1", LANGUAGE="tr", TZ="Asia/Kathmandu", NO_COLOR=""),
    "none": {},
}
tmp = os.path.join(build, "k01-%d" % os.getpid())
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
try:
    # ---------------------------------------------------------------- the generator
    def gen(name, exe, env, cwd, ucd, relative):
        d = os.path.join(tmp, "g-" + name.replace(" ", "-"))
        os.makedirs(d)
        where = os.path.relpath(d, cwd) if relative else d
        rc, text = call([exe, ucd, where, "unicode::precompiled"], 200, env=env, cwd=cwd)
        h = digest(d) if rc == 0 else "ends with %s: %s" % (rc, text[-200:])
        shutil.rmtree(d)
        return name, h

    def build_gen(name, cmd):
        exe = os.path.join(tmp, "gen-" + name)
        src = sorted(glob.glob(os.path.join(libsrc, "src/libunicode/tablegen/*.cpp")))
        rc, text = call(cmd + ["-std=c++20", "-w", '-DLIBUNICODE_UCD_VERSION="15.1.0"', "-I" + os.path.join(libsrc, "src")] + src + ["-o", exe], 600)
        if rc != 0:
            if cmd[0] != "clang++":
                print("ERROR: the generator does not build:", name, text[-600:])
                sys.exit(3)
            res["notes"].append("generator: not built by " + name)
            return None
        return name, exe
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        builds = [f for f in ex.map(lambda x: build_gen(*x), (("gcc -O0 -funsigned-char", ["g++", "-O0", "-funsigned-char"]), ("clang -O1", ["clang++", "-O1"]),
                                                             ("gcc -O1 sanitized", ["g++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]))) if f]
        jobs = [("plain", tool, PLAIN, tmp, worlds.UCD, False)]
        jobs += [(n, e, dict(PLAIN, ASAN_OPTIONS="detect_leaks=0"), tmp, worlds.UCD, False) for n, e in builds]
        jobs += [("environment " + n, tool, e, tmp, worlds.UCD, False) for n, e in ENVIRONMENTS.items()]
        jobs += [("relative paths", tool, PLAIN, tmp, os.path.relpath(worlds.UCD, tmp), True), ("slash behind the directory", tool, PLAIN, "/", worlds.UCD + "/", False)]
        results = list(ex.map(lambda x: gen(*x), jobs))
    want = results[0][1]
    for n, h in results:
        res["states"] += 1
        res["traces"] += 1
        if h != want:
            violation("generator:" + n, "the table generator, %s: %s" % (n, h if h.startswith("ends") else "other tables"))
    # ---------------------------------------------------------------- unicode-query
    args = [["U+%04X" % c] for c in [0, 7, 0x20, 0x41, 0x49, 0x69, 0x7F, 0x80, 0xA0, 0xAD, 0xDF, 0xE4, 0x130, 0x131, 0x301, 0x378, 0x600, 0x915, 0x94D, 0x1100, 0x1161, 0x200B, 0x200D, 0x2028, 0x3042, 0x4E2D,
                                    0xAC00, 0xD800, 0xE000, 0xFE0F, 0xFF21, 0xFFFD, 0xFFFE, 0x10000, 0x1F1E6, 0x1F3FB, 0x1F600, 0x20000, 0xE0001, 0xF0000, 0x10FFFF]]
    texts = ["I", "i", "ß", "ıİ", "é", "é", "a\tb", "\x1b[0m", "中文 a", "👨‍👩‍👧", "🇩🇪🇫", "नि", "각", "ﾊﾞ", "שלום abc", "\u00ad\u200b", "é\u0085x"]
    args += [[t] for t in texts] + [["gc", t] for t in texts] + [["runs", t] for t in texts] + [["-e", "gc", t] for t in texts] + [["gc", "-e", t] for t in texts] + [["runs", "-e", t] for t in texts]
    args += [[], ["--help"], ["-h"], ["gc"], ["runs"], ["U+"], ["U+110000"], ["I", "U+49", "x"]]

    def ask(env, argv, cwd="/", stdin=subprocess.DEVNULL):
        try:
            p = subprocess.run([query] + [x.encode() for x in argv], env=env, cwd=cwd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        plain = list(ex.map(lambda x: ask(PLAIN, x), args))
        for n, e in list(ENVIRONMENTS.items()) + [("another directory", PLAIN)]:
            for x, want, got in zip(args, plain, ex.map(lambda x: ask(e, x, tmp if n == "another directory" else "/"), args)):
                res["states"] += 1
                res["traces"] += 1
                if want != got:
                    violation("query:" + n, "unicode-query %r, %s: %r instead of %r" % (x, n, [str(y)[:300] for y in got], [str(y)[:300] for y in want]))
    res["transitions"] = res["traces"]
    res["extra"] = {"generator: builds and environments": len(results), "unicode-query: argument lists x environments": len(args) * (len(ENVIRONMENTS) + 1)}
finally:
    shutil.rmtree(tmp, ignore_errors=True)
if out:
    json.dump(res, open(out, "w"))
else:
    print(json.dumps(res, indent=1))
sys.exit(1 if res["violations"] else 0)
