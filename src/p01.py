#!/usr/bin/env python3
"""P01: the tree's table generator over rewritten Unicode data directories.

args: GENERATOR LIBRARY_SOURCES HARNESS_SOURCES [--thorough] [--world NAME] --out FILE
Every world (see worlds.py) is given to the generator; worlds with the same tables form a class; of every
class that is not the original's the library is built, and the fact harnesses (d01 d02 d03 m01 x02 n02) are
run against that library with the world's own data as the reference."""
import concurrent.futures, hashlib, itertools, json, os, re, shutil, subprocess, sys, threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import worlds

HARNESSES = ("d01", "d02", "d03", "m01", "x02", "n02")
GEN = {"ucd.cpp", "ucd.h", "ucd_enums.h", "ucd_fmt.h", "ucd_ostream.h", "case_normalization_data.h",
       "codepoint_properties_data.h", "codepoint_properties_data.cpp", "codepoint_properties_names.cpp"}
ENV = dict(os.environ, CCACHE_DISABLE="1", LC_ALL="C.UTF-8")
res = {"complete": True, "capped": False, "states": 0, "transitions": 0, "traces": 0, "samples": [], "notes": [], "extra": {}, "violations": []}
lock = threading.Lock()


def violation(key, detail, count=1):
    with lock:
        for v in res["violations"]:
            if v["key"] == key:
                v["count"] += count
                return
        if len(res["violations"]) < 100:
            res["violations"].append({"key": key, "detail": detail, "count": count})


class Broken(Exception):
    """The machinery, not the code under test."""


def call(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def digest(directory):
    """The tables without their comments: the same digest is the same library."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(directory)):
        with open(os.path.join(directory, f), encoding="utf-8", errors="replace") as g:
            # a comment that ends in a backslash takes the next line with it
            t = re.sub(r"//(?:[^\n\\]|\\\n|\\)*", "", g.read())
        h.update((f + "\0" + re.sub(r"\s+", " ", t) + "\0").encode())
    return h.hexdigest()


def generate(tool, ucd, out):
    os.makedirs(out)
    rc, text = call([tool, ucd, out], 120, env=ENV)
    if rc == 0:
        missing = GEN - set(os.listdir(out))
        return None if not missing else "leaves out " + ", ".join(sorted(missing))
    if rc == "timeout":
        return "does not end"
    return "ends with %s: %s" % (rc, text[-300:])


def name_of(lay, k):
    n = ", ".join("%s %s" % (d, v) for d, v in lay.items() if worlds.AS_IS[d] != v) or "original layout"
    return n if k is None else "facts %d, %s" % (k, n)


def build_and_run(tmp, libsrc, hsrc, name, lay, facts, tool):
    """The facts of one class of worlds."""
    d = os.path.join(tmp, "c-" + hashlib.sha256(name.encode()).hexdigest()[:10])
    src, b, ucd, gen = (os.path.join(d, x) for x in ("src", "b", "ucd", "gen"))
    os.makedirs(d)
    try:
        worlds.write(ucd, lay, facts)
        err = generate(tool, ucd, gen)
        if err:
            raise Broken("generator: second run differs: " + err)
        if lay["noise"] != "none":  # the reference reads the same directory without the lines to be left out
            shutil.rmtree(ucd)
            worlds.write(ucd, dict(lay, noise="none"), facts)
        shutil.copytree(libsrc, src, ignore=lambda dd, names: [n for n in names if n in GEN and os.path.basename(dd) == "libunicode"])
        for f in GEN:
            shutil.move(os.path.join(gen, f), os.path.join(src, "src", "libunicode", f))
        rc, text = call(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O1",
                         "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DLIBUNICODE_TESTING=OFF",
                         "-DLIBUNICODE_BENCHMARK=OFF", "-DLIBUNICODE_TOOLS=OFF", "-DLIBUNICODE_EXAMPLES=OFF", "-DLIBUNICODE_BUILD_STATIC=ON",
                         "-DLIBUNICODE_UCD_DIR=" + ucd, "-DLIBUNICODE_UCD_VERSION=15.1.0", "-Wno-dev"], 300, env=ENV)
        if rc == 0:
            rc, text = call(["ninja", "-j3", "-C", b, "unicode", "unicode_ucd"], 900, env=ENV)
        if rc != 0:
            err = "\n".join([l for l in text.splitlines() if "error" in l][:4]) or text[-600:]
            violation("tables-do-not-compile", "the library does not build with the tables of the world \"%s\": %s" % (name, err))
            return
        archives = [os.path.join(b, "src/libunicode/libunicode.a"), os.path.join(b, "src/libunicode/libunicode_ucd.a")]

        def one(h):
            exe, out = os.path.join(d, h), os.path.join(d, h + ".json")
            rc, text = call(["g++", "-std=c++20", "-O1", "-pthread", "-I" + os.path.join(src, "src"), "-I" + hsrc, os.path.join(hsrc, h + ".cpp")] + archives + ["-o", exe], 600, env=ENV)
            if rc != 0:
                err = "\n".join([l for l in text.splitlines() if "error" in l][:4]) or text[-600:]
                violation("enumerators", "a value of the data has no enumerator with the tables of the world \"%s\": %s" % (name, err))
                return
            for attempt in (0, 1):
                rc, text = call([exe, "-", "--shard", "0/1", "--out", out], 600, env=dict(ENV, VERIF_UCD=ucd, MC_FACTS="1"))
                if rc in (0, 1):
                    break
            if isinstance(rc, int) and rc < 0:
                violation(h + ":crash", "world \"%s\": a lookup ends with signal %d" % (name, -rc))
                return
            if rc in (2, 3, "timeout") or not os.path.exists(out):
                raise Broken("harness %s on world \"%s\": %s %s" % (h, name, rc, text[-500:]))
            r = json.load(open(out))
            with lock:
                res["states"] += r["states"]
                res["transitions"] += r["transitions"]
                res["traces"] += r["traces"]
            for v in r["violations"]:
                violation(h + ":" + v["key"], "world \"%s\": %s" % (name, v["detail"]), v["count"])
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            list(ex.map(one, HARNESSES))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    out = a[a.index("--out") + 1] if "--out" in a else None
    thorough = "--thorough" in a
    tool, libsrc, hsrc, build = a[0], a[1], a[2], a[3]
    tmp = os.path.join(build, "p01-%d" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        for f in worlds.FILES:
            worlds.base(f)
        layouts = [dict(zip(worlds.LAYOUTS, v)) for v in itertools.product(*worlds.LAYOUTS.values())]
        if not thorough:
            keep = {("as is", "as is"), ("split", "as is"), ("merged", "reversed"), ("split", "interleaved")}
            layouts = [l for l in layouts if (l["structure"], l["order"]) in keep]
        layouts = [dict(worlds.AS_IS, **l) for l in layouts]
        layouts += [dict(worlds.AS_IS, structure=s, order=o, noise="malformed") for s in worlds.LAYOUTS["structure"] for o in worlds.LAYOUTS["order"]]
        jobs = [(lay, None) for lay in layouts]
        n = 40 if thorough else 6
        for k in range(n):
            jobs.append((worlds.AS_IS, k))
        classes = {}

        # the original directory itself
        err = generate(tool, worlds.UCD, tmp + "/orig")
        if err:
            violation("generator-fails", "the generator " + err + " on the original data")
            return
        original = digest(tmp + "/orig")
        shutil.rmtree(tmp + "/orig")
        with concurrent.futures.ProcessPoolExecutor(8) as ex:
            futures = [ex.submit(gen_job, (tmp, tool, i, lay, k)) for i, (lay, k) in enumerate(jobs)]
            results = [f.result() for f in futures]
        for (lay, k), (err, h) in zip(jobs, results):
            if err:
                violation("generator-fails", "world \"%s\": the generator %s" % (name_of(lay, k), err))
            elif h != original:
                classes.setdefault(h, []).append((lay, k))
        res["states"] += len(jobs)
        res["transitions"] += len(jobs)
        res["extra"] = {"worlds: layouts": len(layouts), "worlds: changed facts": n, "classes of tables other than the original's": len(classes),
                        "worlds with the original's tables": sum(1 for e, h in results if h == original)}
        for h, ws in classes.items():
            if len(res["samples"]) < 12:
                res["samples"].append("one class: " + " | ".join(name_of(l, k) for l, k in ws[:3]) + (" and %d more" % (len(ws) - 3) if len(ws) > 3 else ""))
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            fs = [ex.submit(build_and_run, tmp, libsrc, hsrc, name_of(*ws[0]), ws[0][0], worlds.facts(ws[0][1]) if ws[0][1] is not None else None, tool) for ws in classes.values()]
            for f in fs:
                f.result()
    except Broken as e:
        print("ERROR:", e)
        sys.exit(3)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if out:
        json.dump(res, open(out, "w"))
    else:
        print(json.dumps(res, indent=1))
    sys.exit(1 if res["violations"] else 0)


def gen_job(x):
    tmp, tool, i, lay, k = x
    d = os.path.join(tmp, "w%d" % i)
    os.makedirs(d)
    try:
        worlds.write(d + "/ucd", lay, worlds.facts(k) if k is not None else None)
        err = generate(tool, d + "/ucd", d + "/gen")
        return (err, None) if err else (None, digest(d + "/gen"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
