"""The registered checks: property -> how to build and run its harness processes."""


def sharded(name, sources=None, shards=8, variant="default", args=(), thorough_args=(), **kw):
    """`shards` processes of one harness."""
    def jobs(build, thorough):
        L = build.lib(variant)
        exe = build.compile_harness(L, name, sources or [name + ".cpp"], **{k: v for k, v in kw.items() if k in ("flags", "libs", "cxx")})
        a = list(args) + (list(thorough_args) if thorough else [])
        return [{"exe": exe, "args": a + ["--shard", "%d/%d" % (i, shards)]} for i in range(shards)]
    return jobs


def data_jobs(name, shards=8):
    """A value of the Unicode data without its enumerator shows as a harness that does not compile."""
    inner = sharded(name, shards=shards)

    def jobs(build, thorough):
        import re
        try:
            return inner(build, thorough)
        except build.BuildError as e:
            text = open(str(e).split("log: ")[-1], errors="replace").read()
            missing = re.findall(r"error: ‘(\w+)’ is not a member of ‘unicode::(Script|Block|Age|General_Category|Grapheme_Cluster_Break|Word_Break|East_Asian_Width|EastAsianWidth|"
                                 r"Indic_Conjunct_Break|Plane|Decomposition_Type|Core_Property|Bidi_\w+)’", text)
            if not missing:
                raise
            return [{"violation": ("enumerator-missing", "no enumerator for " + ", ".join(sorted({"%s::%s" % (b, a) for a, b in missing})[:20])), "cmd": ["true"]}]
    return jobs


MAX_SIMD = "_ZN7unicode6detail13max_simd_sizeEv"


def per_width(name, args=(), shards=2, source=None):
    """One set of processes per vector width of the intrinsics build, plus the portable and std::simd builds."""
    def jobs(build, thorough):
        res = []
        for variant, widths in (("default", (128, 256, 512)), ("none", (128,)), ("std", (128, 256, 512))):
            try:
                L = build.lib(variant)
            except build.BuildError as e:
                if variant == "default":
                    raise
                print("NOTE: not explored: " + str(e))  # an optional configuration this tree does not build in
                continue
            exe = build.compile_harness(L, name, [source or name + ".cpp"], archives=build.weakened(L, [MAX_SIMD]))
            for w in widths:
                n = shards * (1 if variant == "default" else 1)
                res += [{"exe": exe, "args": list(args) + ["--shard", "%d/%d" % (i, n)], "env": {"MC_SIMD": str(w)}} for i in range(n)]
        return res
    return jobs


def norm_jobs(name, shards=8):
    """The normalization harnesses get the decompressed NormalizationTest.txt to validate their reference with."""
    def jobs(build, thorough):
        import bz2, os
        L = build.lib("default")
        exe = build.compile_harness(L, name, [name + ".cpp"])
        t = os.path.join(L.b, "NormalizationTest.txt")
        with open(t + ".tmp%d" % os.getpid(), "wb") as f:
            f.write(bz2.open("/usr/share/unicode/NormalizationTest.txt.bz2").read())
        os.rename(f.name, t)
        return [{"exe": exe, "args": [t, "--shard", "%d/%d" % (i, shards)]} for i in range(shards)]
    return jobs


def a01_jobs(build, thorough):
    """The harness calls the C functions from a C translation unit; that this compiles and links is part of the property."""
    import os
    L = build.lib("default")
    obj, log = os.path.join(L.b, "a01_c.o"), os.path.join(L.b, "a01_c.log")
    cmd = ["gcc", "-std=c11", "-O1", "-Wno-strict-prototypes", "-I" + L.include, "-c", os.path.join(build.VERIF, "src", "a01_c.c"), "-o", obj]
    if build.run(cmd, log):
        return [{"violation": ("header-c", "capi.h cannot be used from C: " + open(log, errors="replace").read()[-1500:]), "cmd": cmd}]
    try:
        exe = build.compile_harness(L, "a01", ["a01.cpp"], extra_objs=[obj])
    except build.BuildError as e:
        text = open(str(e).split("log: ")[-1], errors="replace").read()
        if "undefined reference to `u" not in text:
            raise
        return [{"violation": ("link-c", "a C program does not link: " + text[-1500:]), "cmd": cmd}]
    return [{"exe": exe, "args": ["--shard", "%d/8" % i]} for i in range(8)]


def q01_jobs(build, thorough):
    """Compiles the detector to assembly and replaces the cpuid/xgetbv instructions by calls."""
    import os, re, subprocess
    L = build.lib("default")
    src = os.path.join(L.include, "libunicode", "simd_detector.cpp")
    asm, obj, log = os.path.join(L.b, "detector.s"), os.path.join(L.b, "detector.o"), os.path.join(L.b, "detector.log")
    if build.run(["g++", "-std=c++20", "-O1", "-fno-inline", "-mno-red-zone", "-DLIBUNICODE_USE_INTRINSICS", "-I" + L.include, "-S", src, "-o", asm], log):
        raise build.BuildError("simd_detector.cpp does not compile, log: " + log)
    text = open(asm).read()
    text = re.sub(r"(?m)^(\s*)cpuid\b", r"\1call vt_cpuid_insn", text)
    text = re.sub(r"(?m)^(\s*)xgetbv\b", r"\1call vt_xgetbv_insn", text)
    # what the detector remembers (and its start-up code) goes into sections of their own, so that every explored machine starts afresh
    text = re.sub(r"(?m)^\s*\.local\s+(\S+)\n\s*\.comm\s+\1,(\d+),(\d+)", r'\t.pushsection vtstate,"aw",@progbits\n\t.balign \3\n\1:\n\t.zero \2\n\t.popsection', text)
    text = re.sub(r"(?m)^\s*\.(bss|data)\s*$", "\t.section vtstate,\"aw\",@progbits", text)
    text = re.sub(r"(?m)^\s*\.section\s+\.(bss|data)(?!\.rel\.ro)[^\n]*$", "\t.section vtstate,\"aw\",@progbits", text)
    text = re.sub(r"(?m)^\s*\.section\s+\.init_array[^\n]*$", "\t.section vtinit,\"aw\",@progbits", text)
    open(asm, "w").write(text)
    if build.run(["gcc", "-c", asm, "-o", obj], log):
        raise build.BuildError("rewritten detector does not assemble, log: " + log)
    exe = build.compile_harness(L, "q01", ["q01.cpp"], extra_objs=[obj], flags=["-no-pie"], link=False)
    return [{"exe": exe, "args": ["--shard", "%d/8" % i]} for i in range(8)]


def vector_instructions(exe):
    """Addresses (relative to the start of the image) of all instructions encoded with VEX (1) or EVEX and opmask (2)."""
    import re, subprocess
    res, data = [], subprocess.run(["objdump", "-d", "-w", exe], capture_output=True, text=True).stdout
    for m in re.finditer(r"(?m)^ *([0-9a-f]+):\t((?:[0-9a-f]{2} )+)", data):
        b = bytes.fromhex(m.group(2))
        while b and b[0] in (0x26, 0x2E, 0x36, 0x3E, 0x64, 0x65, 0x66, 0x67, 0xF0, 0xF2, 0xF3):
            b = b[1:]
        if len(b) < 4 or b[0] not in (0x62, 0xC4, 0xC5):
            continue
        level = 2 if b[0] == 0x62 else 1
        if level == 1:
            three = b[0] == 0xC4
            op = b[3] if three else b[2]
            if (not three or b[1] & 0x1F == 1) and (0x41 <= op <= 0x4B or 0x90 <= op <= 0x93 or op in (0x98, 0x99)):
                level = 2
            if three and b[1] & 0x1F == 3 and 0x30 <= op <= 0x33:
                level = 2
        res.append((m.group(1), level))
    return res


def q02_jobs(build, thorough):
    """All instructions of wider vectors than selected are breakpoints."""
    import os
    res = []
    for variant, widths in (("default", (128, 256, 512)), ("none", (128,)), ("std", (128, 256, 512)), ("gcc-O0-unsigned-char", (128, 256))):
        try:
            L = build.lib(variant)
        except build.BuildError as e:
            if variant == "default":
                raise
            print("NOTE: not explored: " + str(e))
            continue
        exe = build.compile_harness(L, "q02", ["q02.cpp", "t01_uses.cpp"], archives=build.weakened(L, [MAX_SIMD]))
        lst = exe + ".vector"
        with open(lst + ".tmp%d" % os.getpid(), "w") as f:
            f.writelines("%s %d\n" % p for p in vector_instructions(exe))
        os.rename(f.name, lst)
        n = 2 if variant in ("default", "std") else 1
        res += [{"exe": exe, "args": [lst, "--shard", "%d/%d" % (i, n)], "env": {"MC_SIMD": str(w)}} for w in widths for i in range(n)]
    return res


def t01_jobs(build, thorough):
    """Library and uses are instrumented with -fsanitize=thread; the harness itself is the runtime of the instrumentation."""
    L = build.lib("tsan")
    obj = build.compile_object(L, "t01_uses.cpp", ["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    exe = build.compile_harness(L, "t01", ["t01.cpp"], extra_objs=[obj],
                                flags=["-no-pie", "-g", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_once,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,"
                                       "--wrap=pthread_spin_lock,--wrap=pthread_spin_unlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_unlock"])
    return [{"exe": exe, "args": ["--shard", "%d/8" % i]} for i in range(8)]


def l01_jobs(build, thorough):
    """Library and uses call the harness in every basic block."""
    L = build.lib("counted")
    obj = build.compile_object(L, "t01_uses.cpp", build.VARIANTS["counted"][1].split())
    exe = build.compile_harness(L, "l01", ["l01.cpp"], extra_objs=[obj], flags=["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen"))])
    return [{"exe": exe, "args": ["--shard", "%d/8" % i]} for i in range(8)]


def u01_jobs(build, thorough):
    """The harness runs the real program."""
    import os
    L = build.lib("tools")
    exe = build.compile_harness(L, "u01", ["u01.cpp"])
    tool = os.path.join(L.b, "src", "tools", "unicode-query")
    if not os.path.exists(tool):
        raise build.BuildError("unicode-query was not built, log: " + os.path.join(L.b, "build.log"))
    return [{"exe": exe, "args": [tool, "--shard", "%d/8" % i]} for i in range(8)]


def p01_jobs(build, thorough):
    """The driver runs the tree's generator over rewritten data directories and the fact harnesses against the libraries it builds from them."""
    import os
    L = build.lib("default")
    src = os.path.join(build.VERIF, "src")
    return [{"exe": "python3", "args": [os.path.join(src, "p01.py"), build.tablegen(L), L.src, src, build.BUILD], "vm_gb": 0}]


def p02_jobs(build, thorough):
    import os
    L = build.lib("default")
    gen = build.tablegen(L)
    exe = build.compile_harness(L, "p02", ["p02.cpp"], link=False)
    return [{"exe": exe, "args": [gen, build.UCD, os.path.join(build.BUILD, "p02-%d" % os.getpid()), "--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


def b01_jobs(build, thorough):
    """One harness in three builds; the sanitized one runs the other two and compares."""
    import re
    exes = []
    for variant, extra in (("checked", []), ("pattern", ["-DB01_FILL=0xFE"]), ("zero", ["-DB01_FILL=0"])):
        L = build.lib(variant)
        flags = [f for f in build.VARIANTS[variant][1].split() if f != "-g"] + ["-g0"] + extra
        exes.append(build.compile_harness(L, "b01", ["b01.cpp", "t01_uses.cpp"], flags=flags))
    return [{"exe": exes[0], "args": exes[1:] + ["--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


def f01_jobs(build, thorough):
    L = build.lib("checked")
    flags = [f for f in build.VARIANTS["checked"][1].split() if f != "-g"] + ["-g0", "-DT01_LOG_RESERVE=32768", "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free"))]
    exe = build.compile_harness(L, "f01", ["f01.cpp", "t01_uses.cpp"], flags=flags)
    return [{"exe": exe, "args": ["--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


K01_BUILDS = ("gcc-O0-unsigned-char", "gcc-O2-shared-native", "gcc-O3-none", "gcc-O2-std-unsigned-char", "clang-O2", "clang-O1-none-unsigned-char")


def k01_jobs(build, thorough):
    """The plain build runs the others and compares. The locales are compiled next to the harness."""
    import concurrent.futures, os, subprocess
    L = build.lib("default")
    plain = build.compile_harness(L, "k01", ["k01.cpp", "t01_uses.cpp"])

    def one(v):
        try:
            M = build.lib(v)
        except build.BuildError:
            if v.startswith("clang"):
                return None  # what only this compiler rejects is not a result
            raise
        flags = ["-O1"] + [f for f in build.VARIANTS[v][1].split() if f not in ("-O0", "-O3")]
        return "=%s=%s" % (v, build.compile_harness(M, "k01", ["k01.cpp", "t01_uses.cpp"], flags=flags, cxx="clang++" if v.startswith("clang") else "g++"))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        others = [o for o in ex.map(one, K01_BUILDS) if o]
    loc = os.path.join(os.path.dirname(L.b), "locales")
    for name, charset in (("tr_TR", "UTF-8"), ("de_DE", "ISO-8859-1"), ("ja_JP", "SHIFT_JIS")):
        d = os.path.join(loc, name + "." + charset)
        if not os.path.isdir(d):
            os.makedirs(loc, exist_ok=True)
            subprocess.run(["localedef", "-c", "--no-archive", "-i", name, "-f", charset, d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    src = os.path.join(build.VERIF, "src")
    T = build.lib("tools")
    query = os.path.join(T.b, "src", "tools", "unicode-query")
    if not os.path.exists(query):
        raise build.BuildError("unicode-query was not built")
    jobs = [{"exe": "python3", "args": [os.path.join(src, "k01gen.py"), build.tablegen(L), query, L.src, loc, build.BUILD], "vm_gb": 0}]
    return jobs + [{"exe": plain, "args": others + ["--locales", loc, "--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


def i01_jobs(build, thorough):
    L = build.lib("checked")
    flags = [f for f in build.VARIANTS["checked"][1].split() if f != "-g"] + ["-g0"]
    exe = build.compile_harness(L, "i01", ["t01_uses.cpp", "i01.cpp"], flags=flags)
    return [{"exe": exe, "args": ["--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


def h01_jobs(build, thorough):
    """Texts of many GiB of address space; one step may take minutes."""
    L = build.lib("default")
    exe = build.compile_harness(L, "h01", ["h01.cpp"])
    return [{"exe": exe, "args": ["--shard", "%d/8" % i], "vm_gb": 0, "env": {"MC_HANG_TICKS": "150"}} for i in range(8)]


def v01_jobs(build, thorough):
    L = build.lib("checked")
    flags = [f for f in build.VARIANTS["checked"][1].split() if f != "-g"] + ["-g0"]
    exe = build.compile_harness(L, "v01", ["v01.cpp"], flags=flags)
    return [{"exe": exe, "args": ["--shard", "%d/8" % i], "vm_gb": 0} for i in range(8)]


CHECKS = {
    "G01": dict(
        jobs=sharded("g01"),
        technique="explicit-state product search (real state machine x UAX #29 reference automaton)",
        bounds="search over class representatives runs to closure (texts of every length); every code point is tried in every product state "
               "and followed by every representative; after a break both continuing and re-initialising the state are explored",
        assumptions=["the reference automaton (validated on GraphemeBreakTest.txt) is UAX #29 for Unicode 15.1"],
        note="Closes: all texts, all code points, both drive modes. Trusts the reference automaton, which is validated on GraphemeBreakTest.txt."),

    "C01": dict(
        jobs=per_width("c01", ["wellformed"]),
        technique="bounded-exhaustive execution of the real conversion at every vector width against a reference decoder",
        bounds="every scalar value; every ASCII length 0..270 with all byte values in all lanes; two multi-byte characters at every pair of distances 0..134 with "
               "block-relevant tails; all sequences of character lengths up to 5 behind every ASCII prefix 0..66; all sequences of 11 boundary scalars up to 4; "
               "pumped texts to 65537; input at both ends of a guarded buffer, output flush against a guard page; widths 128/256/512, portable and std::simd builds",
        assumptions=["widths the CPU lacks are skipped (noted in the evidence)"],
        note="Exhaustive within the stated shapes; texts with three or more widely separated multi-byte characters are only covered by short sequences and pumping."),
    "C02": dict(
        jobs=per_width("c01", ["malformed"]),
        technique="bounded-exhaustive execution over all byte strings of a byte-class alphabet, guard pages, reference decoder",
        bounds="all byte strings over 15 byte classes up to length 5 (6 thorough); up to length 3 (4) embedded at block-relevant offsets; every pair of bytes behind every pending "
               "prefix followed by complete characters; pumped malformed runs to 65537; every vector width and build variant",
        assumptions=["bytes of one class behave alike beyond the depth at which all 256 values are tried"],
        note="Exhaustive within the stated shapes, with out-of-bounds accesses turned into faults by guard pages."),
    "C04": dict(
        jobs=sharded("c04"),
        technique="explicit-state product search (real decoder state x reference DFA) to closure",
        bounds="search to closure over a byte alphabet of 35 boundary bytes with all 256 bytes tried in every state; every scalar value in 18 histories followed by a further character",
        assumptions=["how many Invalid results one malformed form gives, and whether an ASCII byte breaking a pending character is delivered, is left open as the statement does"],
        note="Closes: byte streams of every length."),
    "S01": dict(
        jobs=per_width("s01"),
        technique="bounded-exhaustive execution of the real scan at every vector width against its specification",
        bounds="every length 0..200 with every maximum; first non-text byte at every position of every length with three kinds of continuation; every byte value at every position of "
               "block-sized texts; every pair of positions in 134 bytes; every start alignment; lengths to 200000; guard pages on both sides; widths 128/256/512, portable and std::simd builds",
        assumptions=["widths the CPU lacks are skipped (noted in the evidence)"],
        note="Exhaustive within the stated lengths."),
    "C03": dict(
        jobs=sharded("c03"),
        technique="domain enumeration of all scalars and bounded enumeration of unit strings through every conversion pair on guard pages",
        bounds="every scalar value alone and next to boundary scalars through all 16 conversion pairs and all interfaces; all sequences of 17 boundary scalars up to length 3; "
               "all UTF-16 unit strings over 9 classes and UTF-8 byte strings over 13 classes up to length 5; every last UTF-16 unit and every last two bytes; UTF-32 with non-scalars up to 4; pumped texts",
        assumptions=["what is produced for the ill-formed part itself is left open"],
        note="All scalars are enumerated; longer mixtures are bounded as stated."),
    "Q01": dict(
        jobs=q01_jobs,
        technique="enumeration of all environment answers (CPUID/XGETBV instructions of the compiled detector replaced by an enumerating handler)",
        bounds="all 2^8 XCR0 states x 2^3 leaf-1 bits x 2^5 leaf-7 bits x 9 maximum leaves x 2 backgrounds, plus every pair of bits of every word flipped on four realistic machines",
        assumptions=["the required set for 512 bits is AVX512F, AVX512BW and AVX512_BITALG with opmask/ZMM state saved, as the detector declares"],
        note="The decision depends only on enumerated bits; the compiled code of the tree is executed with its two environment instructions intercepted."),
    "Q02": dict(
        jobs=q02_jobs,
        technique="bounded-exhaustive execution of the real code with a breakpoint on every instruction of the program that needs a wider vector unit than the width explored, for every width that can be selected",
        bounds="29 kinds of use x all sequences of 34 pieces up to length 2 (3 thorough), one of 4 neighbouring code points (thorough: all), byte strings up to 2 (3), pumped pairs to 129 (1000), "
               "x widths 128, 256 and 512 x builds: default, std::simd, without vectors, unoptimized",
        assumptions=["x86-64; SSE4.1 is taken for granted, as in the project's build", "the C and C++ runtime choose for themselves"],
        note="A width the CPU at hand does not support is not explored (the evidence says so)."),

    "N01": dict(
        jobs=norm_jobs("n01"),
        technique="bounded-exhaustive execution of the real normalizer against a reference normalizer validated on NormalizationTest.txt",
        bounds="all sequences of 44 representatives (combining classes, composites, singletons, exclusions, Hangul, compatibility) up to length 4 (5 thorough); every code point in 13 contexts; "
               "every pair of combining marks; every first x every second of all canonical pairs with 12 characters between; Hangul L x V x T beyond the block edges; pumped texts to 70000",
        assumptions=["the reference normalizer (validated on every line of NormalizationTest.txt) is UAX #15 for Unicode 15.1"],
        note="All code points and pairs are enumerated; longer texts only as stated."),
    "N02": dict(
        jobs=norm_jobs("n02"),
        technique="bounded-exhaustive execution of the real checks and queries against the reference normalizer; all pairs of short texts for equivalence",
        bounds="the texts of N01 with sequences up to 3 (4 thorough); all pairs of 1981 texts of up to two representatives; every code point against its four forms; every code point (and values beyond) for the queries",
        assumptions=["canonical_decomposition/compatibility_decomposition return the single-step mapping, the full one for Hangul syllables"],
        note="All code points are enumerated; texts only as stated."),
    "N03": dict(
        jobs=norm_jobs("n03"),
        technique="exhaustive enumeration of input histories (cuts, flush and reset points) of the real streaming objects against the whole-text reference",
        bounds="the texts of N01 with sequences up to 3 (4 thorough) character by character, whole and byte by byte; all 2^(n-1) cuts of texts to 7 bytes and all three-piece cuts to 9; "
               "reset/flush at every point of 1936 texts followed by 8 others; all byte strings over 10 classes to length 5 (6) with all cuts",
        assumptions=["a malformed run becomes one or more U+FFFD (its number is left open)"],
        note="Histories are exhaustive within the bounds; objects are reused across all texts of a process."),

    "G02": dict(
        jobs=sharded("g02"),
        technique="bounded-exhaustive execution of the three real interfaces against the UAX #29 reference automaton and each other",
        bounds="all sequences of 22 class representatives up to length 5 (6 thorough); every code point in 24 contexts; pumped clusters and texts to 70000; "
               "malformed UTF-8: all sequences of 16 pieces up to 5 (6), every pair of bytes behind 12 pending prefixes; inputs flush against guard pages",
        assumptions=["how many replacement characters one malformed run contributes is left open (at least one)", "clusters of texts with values beyond Unicode are only checked to tile"],
        note="Exhaustive within the bounds; the unbounded segmentation argument itself is G01's product search."),
    "A01": dict(
        jobs=a01_jobs,
        technique="bounded-exhaustive execution of the C functions (from C) against the C++ operations, all output sizes, guard pages",
        bounds="all sequences of 24 representatives up to length 4 (5 thorough) for counts and widths; every code point (and beyond) for every function; all sequences of 11 boundary values up to 5 (6) with "
               "every output size; all byte strings over 16 classes up to 5 (6) streamed and in bulk; all interleavings of two converters; pumped texts",
        assumptions=["the C++ operations are right (their own properties)"],
        note="Exhaustive within the bounds; buffers end at inaccessible pages."),

    "W01": dict(
        jobs=sharded("w01"),
        technique="explicit-state product search (real word state machine with consistent look-ahead x UAX #29 reference automaton) plus bounded-exhaustive runs of the iterator",
        bounds="product search over 21 class representatives to closure, for continued, re-initialised and re-used states; every code point between, before and behind every pair of representatives; "
               "iterator and step-wise interface on all sequences up to length 5 (6 thorough) and on pumped periods of two classes to 65537",
        assumptions=["the reference (validated on WordBreakTest.txt and against a second reading of the rules) is UAX #29 for Unicode 15.1"],
        note="Closes: all texts over the classes, look-ahead represented by its first non-ignored character; code points are classified by exhaustive triples."),

    "E01": dict(
        jobs=sharded("e01"),
        technique="bounded-exhaustive execution of the real segmenter against direct matching of the emoji grammar",
        bounds="all sequences of 15 segmentation categories up to length 6 (7 thorough); every code point in 15 contexts that separate all categories; every prefix x repeated pair x suffix up to 2000 and 131074 characters; "
               "copies taken after every run",
        assumptions=["the grammar in emoji_presentation_scanner.rl, with longest match, is the specified emoji grammar"],
        note="The grammar's automaton needs three characters of look-ahead except for repetitions, which are pumped."),
    "R01": dict(
        jobs=sharded("r01"),
        technique="conformance test of the real segmenter from every reachable state of the reference set automaton (access word x every class x every class), plus bounded-exhaustive texts",
        bounds="all 277 reachable sets of possible scripts x 235 distinct script sets x 235; every code point against a representative of every single script; all sequences of 16 characters up to 5 (6 thorough); pumped texts",
        assumptions=["a character with script Common or Inherited and script extensions counts as having Common/Inherited besides the extensions", "which of several possible scripts is named is left open"],
        note="Complete for implementations whose behaviour depends on the set of still possible scripts and two further characters."),
    "R02": dict(
        jobs=sharded("r02"),
        technique="exhaustive enumeration of all component behaviours (partitions) for the combining segmenter, plus bounded-exhaustive texts through the real components",
        bounds="all tuples of up to three partitions of texts up to length 7 (8) and pairs up to 8 (9); all sequences of 17 characters up to length 6 (7 thorough); every code point in 20 contexts; pumped texts",
        assumptions=["labels are those of the component segmenters (E01, R01)"],
        note="Exhaustive within the bounds."),

    "D01": dict(
        jobs=data_jobs("d01"),
        technique="exhaustive enumeration of the whole input domain (all 2^32 values) against tables read directly from the Unicode data files",
        bounds="none: every field of the record of all 1,114,112 code points, and every 32-bit value above",
        assumptions=["unlisted East Asian width is Narrow in the record (documented default)", "values beyond Unicode give the record of U+0000 (the table view's fallback)"],
        note="Complete for the built-in Unicode version."),
    "D02": dict(
        jobs=data_jobs("d02"),
        technique="exhaustive enumeration of the input domain of every query against tables read directly from the Unicode data files",
        bounds="all 1,114,112 code points x all queries and all property values; values beyond Unicode around every power of two and at both ends (2^18, thorough 3*2^20 each); "
               "all enumerators' printed names; all strings over 13 characters up to length 5 as versions",
        assumptions=["unlisted code points give Undefined/Unspecified/Unknown as the functions' fallbacks name them"],
        note="Complete over the code points; values beyond Unicode are bounded."),
    "D03": dict(
        jobs=sharded("d03"),
        technique="exhaustive enumeration of the whole input domain (all 2^32 values) against DerivedName.txt, cross-checked with UnicodeData.txt",
        bounds="none: all 1,114,112 code points and every 32-bit value above",
        assumptions=["ranges named by a pattern (CJK UNIFIED IDEOGRAPH-*) give the pattern as listed"],
        note="Complete for the built-in Unicode version."),
    "D04": dict(
        jobs=sharded("d04"),
        technique="bounded-exhaustive execution of the real compressor on all small tables",
        bounds="all tables of up to 10-20 elements over 2-4 values with block sizes 1-4, for trivially copyable, string and padded elements and good, weak and colliding hashes; "
               "index types at and beyond their limits; tables filling their index type; the library's own table shape",
        assumptions=["a table whose distinct blocks or values exceed the index types may be refused by an exception"],
        note="Exhaustive within the bounds."),
    "X02": dict(
        jobs=sharded("x02"),
        technique="exhaustive enumeration of the whole input domain (all 2^32 values) against the documented width rules over the Unicode data files",
        bounds="none: all 1,114,112 code points through three interfaces, and every 32-bit value above",
        assumptions=["values beyond Unicode have the width of U+0000 (the table view's fallback)"],
        note="Complete for the built-in Unicode version."),

    "X01": dict(
        jobs=sharded("x01"),
        technique="explicit-state product search (real width accumulator x reference of the documented rules) plus bounded-exhaustive texts through the one-shot functions",
        bounds="product search over all width classes to closure (totals compared by difference); all class sequences to depth through accumulator and one-shot functions; every code point in every explored state; "
               "pumped clusters; used, reset and copied accumulators",
        assumptions=["the rules documented in width.h, written down twice (whole cluster, incremental) and compared with each other, are the specification",
                     "boundaries of the clusters a text's width is summed over are the segmenter's (G01/G02)"],
        note="Exhaustive within the bounds."),
    "S02": dict(
        jobs=sharded("s02", args=("s02",)),
        technique="explicit-state search over all reachable scanner states paired with an accounting reference; from every state all short texts x all limits, executed on the real scanner",
        bounds="closure of the scanner states under single pieces (about 55,000 states), from each all texts of two pieces (of 28 characters, malformed and incomplete forms, controls) x every limit; "
               "three pieces from a cover of the states; whole streams with all cuts; pumped texts around the vector widths; every code point cut at every byte",
        assumptions=["buffers are contiguous across a pending character", "the number of bytes of one malformed sequence is the streaming decoder's (C04)",
                     "cluster boundaries and widths are the library's (G01, X01)", "columns already handed out cannot be taken back by a text selector",
                     "an ASCII base may be separated from its marks at a limit"],
        note="All reachable states within the cluster width cap are explored; text per call is bounded, longer ones pumped."),
    "S03": dict(
        jobs=sharded("s02", args=("s03",)),
        technique="explicit-state search over all reachable scanner states paired with a reference of the events; from every state all short texts x all limits, executed on the real scanner",
        bounds="as S02, with the recorded events, stop positions and controls compared",
        assumptions=["as S02", "ASCII characters are reported in ASCII sequences, also behind a prepended character",
                     "a control closes the open cluster when scan_text is called at it with columns left, or stopped there with columns left"],
        note="All reachable states within the cluster width cap are explored; text per call is bounded, longer ones pumped."),

    "M01": dict(
        jobs=sharded("m01"),
        technique="exhaustive enumeration of the input domain of every mapping and predicate against tables read directly from the Unicode data files",
        bounds="all 1,114,112 code points x 14 functions; beyond Unicode: every value below 2^24, 2^15 around every power of two, the bits of every mapped code point with every pattern in front (quick), all 2^32 values (thorough)",
        assumptions=["is_cased means general category Lu, Ll or Lt as its documentation says", "conditional and Turkic mappings do not apply to single code points"],
        note="Complete over the code points; complete over all 32-bit values in the thorough run."),
    "M02": dict(
        jobs=sharded("m02"),
        technique="bounded-exhaustive execution of the string functions in both encodings against per-character data and reference word boundaries",
        bounds="all sequences of 30 word and case classes up to length 4 (5 thorough), of 12 up to 6 (7); every code point in 8 contexts; all pairs of 1200 texts compared; every code point compared with its mapped forms; "
               "pumped texts to 70001; all sequences of 13 well-formed and malformed pieces up to 5 (6)",
        assumptions=["context-dependent mappings (final sigma) are not applied, as the functions map character by character", "cased means general category Lu, Ll or Lt, as documented",
                     "malformed UTF-8 becomes what the bulk decoder makes of it (C02)"],
        note="Exhaustive within the bounds."),

    "T01": dict(
        jobs=t01_jobs,
        technique="partial-order argument by exhaustive access monitoring (every write of the instrumented library in every explored call), plus exploration of all interleavings "
                  "of two real uses up to a context-switch bound, on one and two threads, and inside callbacks",
        bounds="writes: 29 kinds of use x all sequences of 30 pieces up to length 2 (3 thorough), every code point, texts to 1000 pieces, each run twice; schedules: all pairs of uses x pairs of 14 texts "
               "(a quarter of them in quick), all interleavings where there are at most 500, otherwise at most 3 (4) context switches; two threads with at most 3 switches; every callback of every text x every use; all texts over 11 pieces up to length 4 (5) with a use in every callback",
        assumptions=["thread-local scratch memory is allowed (only its effects are checked)", "the C++ runtime's guarded initialisation is thread-safe"],
        note="No conflicting accesses in any monitored call means all schedules of those calls are equivalent; inputs are bounded as stated."),
    "U01": dict(
        jobs=u01_jobs,
        technique="bounded-exhaustive execution of the real program on argument lists, output parsed back and compared with the library and the reference segmentation",
        bounds="records: every code point as U+XXXX (all in thorough; a quarter of the large uniform ranges in quick), three other spellings, all strings of 9 symbols to length 4 behind U+, numbers of up to 40 digits; "
               "gc and runs, plain and escaped: all texts over 27 characters up to length 3 (4), pumped pairs, every character below U+3000 (all in thorough)",
        assumptions=["texts contain no backslash (the output does not escape it)", "the names of enumerators are what the stream operators print (D02)"],
        note="What the library itself answers is decided by the other properties; here the program's use and presentation of it."),
    "L01": dict(
        jobs=l01_jobs,
        technique="exhaustive enumeration of patterned texts with a deterministic count of the executed basic blocks, touched and allocated memory (no clock), compared between two lengths",
        bounds="29 kinds of use x patterns (pq)*, p*q*, p q* over all pairs of 42 pieces, (pqr)* (thorough: p*q*r*) over all triples of 14, at 400 and 1600 pieces (1500 and 6000 thorough); work is counted basic blocks, bytes moved by mem* functions "
               "and allocations; a growth beyond 6.5 (memory: 13) for four times the text is a violation",
        assumptions=["work inside the C and C++ runtime other than memory moves and allocation is constant per call"],
        note="Quadratic work with a constant so small that it does not show at 1600 (6000) pieces is not seen."),
    "B01": dict(
        jobs=b01_jobs,
        technique="bounded-exhaustive execution of every interface in three instrumented builds (address and undefined-behaviour sanitizer with library assertions; two fillings of fresh memory), "
                  "inputs in blocks of exactly their size, results compared between the builds",
        bounds="29 kinds of use x all sequences of 34 pieces up to length 2 (3 thorough), every code point (large uniform planes every 16th in quick), values beyond Unicode, all byte strings over 21 byte "
               "classes up to length 3 (4), also behind vector-width prefixes, pumped pairs of pieces to 1000",
        assumptions=["the sanitizers report what they are documented to report", "C functions get buffers of the documented size (A01 varies them)"],
        note="Undefined behaviour the sanitizers do not instrument (strict aliasing, data races: T01) is not seen."),
    "P01": dict(
        jobs=p01_jobs,
        technique="bounded-exhaustive execution of the real table generator over rewritten data directories (all combinations of layouts; worlds of changed facts); every distinct result is built and "
                  "its lookups compared at every code point with that directory by the fact harnesses of D01, D02, D03, M01, N02, X02",
        bounds="layouts: structure (as is, split, merged) x order (as is, reversed, interleaved) x spacing x comments x line ends, all 243 combinations (108 in quick), and lines that name no code points in 9 of them; facts: 6 (40 thorough) worlds, in each of which "
               "every property takes another value at about 90 edges of the code space and over 2 of 7 spans, blocks are exchanged, and characters with every combining class, decomposition, "
               "composition exclusion and case mapping kind are added at unassigned places",
        assumptions=["no new enumerators (scripts, blocks, properties); at most 256 different table blocks, beyond which the generator refuses",
                     "the sections and headings of a file stay where they are; UnicodeData.txt stays in order"],
        note="The tables have no history: a directory is decided once its generated files are. Which directories are explored is bounded as stated."),
    "H01": dict(
        jobs=h01_jobs,
        technique="bounded-exhaustive execution over text sizes around 2^31 and 2^32: the real code walks texts of periodic content, every segment compared with those of a text of four periods",
        bounds="beginnings: all texts up to 3 of 14 characters (4 thorough) in front of mixed content x 11 lengths from 2^31-1 to 3*2^31 x 7 interfaces; whole walks of one segment of more than 2^32 units (runs: 2^31) and of many segments "
               "(clusters and words 2^31 characters, UTF-8 2^32 bytes; thorough: every interface, both contents, 2^32); all such lengths x 16 limits for scans and C buffers; bulk conversions and iterator conversions of more than 2^32 units",
        assumptions=["the content repeats with a period of 8 MiB; segmentation of four periods itself is decided by G01, W01, E01, R01, S02"],
        note="What must produce a string of its own (case conversion, normalization) is not explored at these sizes. The C counting functions return int and are not explored beyond it."),
    "P02": dict(
        jobs=p02_jobs,
        technique="exhaustive fault injection and crash-point enumeration: the real generator runs under ptrace, and each of its operations on the data and output directories meets a fault once",
        bounds="all (about 2100) operations of a run over the whole Unicode data: each fails (two errors where opened or, thorough, written); the first and last of each series (thorough: all) are also interrupted, done in part, "
               "followed by failures only, or the last before SIGKILL, after which an undisturbed run must give the right tables",
        assumptions=["one fault per run, or all reads and writes from one on", "Linux system calls on x86-64"],
        note="Faults of the standard output are not explored."),
    "F01": dict(
        jobs=f01_jobs,
        technique="exhaustive fault injection: every allocation of every explored execution fails once (operator new, nothrow new, malloc family), in a sanitized build; what was reported, the exception, "
                  "the blocks in use and later uses are compared with an undisturbed run",
        bounds="29 kinds of use x all sequences of 28 pieces up to length 2 (3 thorough), pairs of pieces alternating to 65 pieces (a fifth to an eleventh of them in quick) x every allocation (quick: of more than 160 the first 96, the last 32, 32 between); "
               "streaming normalizers: four forms x texts up to 2 pieces and alternating pairs to 40 x every allocation x reset, move, assignment and failing copies x four further texts",
        assumptions=["one allocation fails at a time", "the noexcept interfaces (UTF-8 grapheme iteration, script and run segmentation, UTF-8 cluster width) may end the program, as declared"],
        note="Exceptions thrown by the caller's own iterators are not explored; the interfaces that take callbacks require them not to throw."),
    "K01": dict(
        jobs=k01_jobs,
        technique="exhaustive enumeration of build configurations x environments x bounded executions of the real code; the results of every use on every text are compared between all of them",
        bounds="29 kinds of use x all sequences of pieces up to the bound of B01, pumped ones and runs, in 7 builds (gcc and clang; -O0, -O1, -O2, -O3; with and without assertions; static and shared; signed and unsigned char; native vectors, std::simd, none) and "
               "9 environments (three compiled locales, a C++ global locale of its own, errno, rounding mode, variables, directory, closed streams); generator and query tool in 3 builds and the same locales",
        assumptions=["x86-64, 64-bit, little-endian (no other target can be built or run here)", "libstdc++ (no other standard library is installed)"],
        note="A build that only clang rejects is left out and not counted as a violation."),
    "I01": dict(
        jobs=i01_jobs,
        technique="exhaustive enumeration of moments in the life of a process x bounded executions of the real code, in a sanitized build with checked initialisation order; results compared with those in main",
        bounds="29 kinds of use x all sequences of 34 pieces up to length 2 (3 thorough), one of 8 (4) neighbouring code points, byte strings up to 2 (3), pumped pairs to 129 at nine moments: before main, before main "
               "and then in main, at exit, thread end, stack of 192 KiB, forked child, signal handler, unwinding, first call in a thread that has ended",
        assumptions=["linked statically, behind the objects that call it before main", "Linux and glibc"],
        note="Unloading a shared library at run time is not explored."),
    "V01": dict(
        jobs=v01_jobs,
        technique="explicit-state exploration: every object at every step of every text x every copy, move, assignment, swap, restore and destruction, each resulting object run to its end "
                  "and compared with an untouched one, in a sanitized build with destroyed objects overwritten",
        bounds="21 kinds of object x all sequences of 22 pieces up to length 2 (3 thorough), all sequences of 8 state-keeping pieces of length 3 (4), pumped pairs of pieces to 40 (130), every position, "
               "the second object on three texts at one of three positions each (all three in thorough); 15 operations",
        assumptions=["objects that were moved from are only destroyed or given a new value"],
        note="What a view returned earlier shows after its object was moved is not claimed."),
}
