"""Writes src/enumnames.hpp: UCD value names <-> the enumerators of the library's headers.
Run once; the result is committed (it depends on the UCD files only)."""
import re, os
U = "/usr/share/unicode/"
def lines(f):
    for l in open(U + f, encoding="utf-8"):
        l = l.split("#")[0].strip()
        if l and not l.startswith("@"):
            yield [x.strip() for x in l.split(";")]
def vals(f, col=1, n=None):
    s = []
    for x in lines(f):
        if (n is None or len(x) == n) and len(x) > col and x[col] not in s:
            s.append(x[col])
    return sorted(s)
alias = {}
for x in lines("PropertyValueAliases.txt"):
    alias.setdefault(x[0], {})[x[1]] = x[2]
out = ["// Generated by lib/mkenumnames.py: names in the Unicode data <-> enumerators of the library.",
       "#pragma once", "#include <libunicode/codepoint_properties.h>", "#include <libunicode/ucd.h>", "#include <libunicode/ucd_enums.h>", "",
       "#include <string>", "#include <utility>", "#include <vector>", "namespace enumnames", "{",
       "template <typename E> using Map = std::vector<std::pair<std::string, E>>;",
       "template <typename E> std::string nameOf(Map<E> const& m, E e)", "{", "    for (auto& [n, v]: m)", "        if (v == e)", "            return n;",
       '    return "enumerator " + std::to_string(int(e));', "}",
       "template <typename E> E valueOf(Map<E> const& m, std::string const& s)", "{", "    for (auto& [n, v]: m)", "        if (n == s)", "            return v;",
       "    return E(250);", "}"]
def table(fn, enum, pairs):
    out.append("inline Map<unicode::%s> const& %s()\n{\n    static Map<unicode::%s> const m = {" % (enum, fn, enum))
    for n, e in pairs:
        out.append('        { "%s", unicode::%s::%s },' % (n, enum, e))
    out.append("    };\n    return m;\n}")
sc = vals("Scripts.txt")
table("script", "Script", [(s, s) for s in sc + ["Unknown"] if s != "Unknown"] + [("Unknown", "Unknown")])
gcs = vals("extracted/DerivedGeneralCategory.txt")
table("gc", "General_Category", [(g, alias["gc"][g]) for g in gcs])
table("gcb", "Grapheme_Cluster_Break", [(g, g) for g in vals("auxiliary/GraphemeBreakProperty.txt") + ["Other"]])
table("wb", "Word_Break", [(g, g) for g in vals("auxiliary/WordBreakProperty.txt") + ["Other"]])
table("incb", "Indic_Conjunct_Break", [(g, g) for g in ("Consonant", "Extend", "Linker", "None")])
table("eaw", "EastAsianWidth", [("A", "Ambiguous"), ("F", "FullWidth"), ("H", "HalfWidth"), ("N", "Neutral"), ("Na", "Narrow"), ("W", "Wide")])
table("age", "Age", [(a, "V" + a.replace(".", "_")) for a in sorted(vals("DerivedAge.txt"), key=lambda a: [int(q) for q in a.split(".")])] + [("NA", "Unassigned")])
table("block", "Block", [(b, re.sub(r"[ \-]", "_", b)) for b in vals("Blocks.txt")])
core = vals("DerivedCoreProperties.txt", 1, 2)
table("core", "Core_Property", [(c, c) for c in core])
table("plane", "Plane", [(p, p) for p in ("Basic_Multilingual_Plane", "Supplementary_Ideographic_Plane", "Supplementary_Multilingual_Plane",
      "Supplementary_Private_Use_Area_Plane", "Supplementary_Special_purpose_Plane", "Tertiary_Ideographic_Plane", "Unassigned")])
out.append("} // namespace enumnames")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src/enumnames.hpp"), "w").write("\n".join(out) + "\n")
