"""Rewrites a Unicode data directory: the same facts in another layout, or a few facts changed ("worlds")."""
import os, re, shutil

UCD = "/usr/share/unicode"
# file -> kind. R: code points or ranges, the rest of the fields is the value; L: one line per code point; B: blocks
FILES = {
    "Scripts.txt": "R", "Blocks.txt": "B", "EastAsianWidth.txt": "R", "auxiliary/GraphemeBreakProperty.txt": "R",
    "auxiliary/WordBreakProperty.txt": "R", "extracted/DerivedGeneralCategory.txt": "R", "DerivedAge.txt": "R",
    "HangulSyllableType.txt": "R", "IndicSyllabicCategory.txt": "R", "extracted/DerivedName.txt": "R", "ScriptExtensions.txt": "R",
    "BidiMirroring.txt": "L", "CompositionExclusions.txt": "R", "DerivedNormalizationProps.txt": "R", "CaseFolding.txt": "L",
    "SpecialCasing.txt": "L", "emoji/emoji-data.txt": "R", "emoji/emoji-variation-sequences.txt": "L",
    "DerivedCoreProperties.txt": "R", "PropertyValueAliases.txt": "A", "UnicodeData.txt": "U",
}
HEADING = re.compile(r"# *(General_Category=|Property:|Derived Property:|@missing)|# .* \(\S+\)\s*$")


class Entry:
    __slots__ = ("first", "last", "fields", "comment", "text", "semi")

    def __init__(self, first=None, last=None, fields=None, comment="", text=None, semi=False):
        self.first, self.last, self.fields, self.comment, self.text, self.semi = first, last, fields, comment, text, semi

    def copy(self):
        return Entry(self.first, self.last, list(self.fields), self.comment, None, self.semi)


def parse(name):
    """A file as a list of entries; comment and blank lines keep their text."""
    kind, out = FILES[name], []
    with open(os.path.join(UCD, name), encoding="utf-8") as f:
        for line in f:
            line = line.rstrip("\r\n")
            if not line.strip() or line.lstrip()[0] in "#@":
                out.append(Entry(text=line))
                continue
            comment = ""
            if kind != "U" and "#" in line:
                line, comment = line.split("#", 1)
            parts = [p.strip() for p in line.split(";")]
            e = Entry(fields=parts[1:], comment=comment.strip())
            if kind in "RB":
                a, _, b = parts[0].partition("..")
                e.first, e.last = int(a, 16), int(b or a, 16)
            else:
                e.first = e.last = parts[0]
            if kind not in "UA" and len(e.fields) > 1 and e.fields[-1] == "":
                e.fields.pop()
                e.semi = True
            out.append(e)
    return out


_base = {}


def base(name):
    if name not in _base:
        _base[name] = parse(name)
    return _base[name]


LAYOUTS = {"structure": ("as is", "split", "merged"), "order": ("as is", "reversed", "interleaved"), "spacing": ("as is", "tight", "wide"),
           "comments": ("as is", "none", "tricky"), "lines": ("LF", "CRLF", "no last newline")}
AS_IS = {"structure": "as is", "order": "as is", "spacing": "as is", "comments": "as is", "lines": "LF", "noise": "none"}
# lines that name no code points of Unicode are to be left out
NOISE = ("110000..110010 ; %s", "0041..110000 ; %s", "FFFF0041 ; %s # x", "0062..0041 ; %s", "0041 %s", "0041..0062", "0041..FFFFFFFF;%s")
NOISY = {n for n, kind in FILES.items() if kind in "RB" and n not in ("CompositionExclusions.txt", "DerivedNormalizationProps.txt")} | {"BidiMirroring.txt"}


def arrange(entries, kind, lay):
    """Structure and order: acts on runs of data lines between the file's own headings."""
    if kind == "R" and lay["structure"] != "as is":
        out = []
        for e in entries:
            if e.text is not None:
                out.append(e)
            elif lay["structure"] == "split" and e.last > e.first:
                # first code point, a middle part, last code point
                cuts = sorted({e.first, e.first + 1, e.last, (e.first + e.last + 1) // 2})
                for i, a in enumerate(cuts):
                    c = e.copy()
                    c.first, c.last = a, (cuts[i + 1] - 1 if i + 1 < len(cuts) else e.last)
                    out.append(c)
            elif lay["structure"] == "merged" and out and out[-1].text is None and out[-1].fields == e.fields and out[-1].last + 1 == e.first:
                c = out[-1].copy()
                c.last = e.last
                out[-1] = c
            else:
                out.append(e)
        entries = out
    if lay["order"] != "as is" and kind in "RL":
        out, run = [], []

        def flush():
            if lay["order"] == "reversed":
                run.reverse()
            elif lay["order"] == "interleaved":  # every other line first
                run[:] = run[1::2] + run[0::2]
            out.extend(run)
            run.clear()
        for e in entries:
            if e.text is not None:
                if HEADING.match(e.text):
                    flush()
                    out.append(e)
                else:
                    out.append(e)
            else:
                run.append(e)
        flush()
        entries = out
    return entries


def render(entries, kind, lay, extra=(), noisy=False):
    out = []
    values = [e.fields for e in entries if e.text is None] if noisy else []
    sp, com = lay["spacing"], lay["comments"]
    n = 0
    for e in entries:
        if e.text is not None:
            if com != "as is" and e.text.strip() and not HEADING.match(e.text):
                if com == "none":
                    continue
            out.append(e.text)
            continue
        n += 1
        if noisy and n % 41 == 0:  # with the value of a line far away
            t = NOISE[n // 41 % len(NOISE)]
            v = values[(n * 37) % len(values)]
            out.append(t % ("; ".join(v) if ";" in t else v[0]) if "%s" in t else t)
        cp = e.first if isinstance(e.first, str) else "%04X" % e.first + ("..%04X" % e.last if e.last != e.first or kind == "B" else "")
        if kind == "U":
            out.append(";".join([cp] + e.fields))
            continue
        if sp == "tight":
            line = ";".join([cp] + e.fields)
        elif sp == "wide":
            line = "   ;  ".join([cp.ljust(20)] + e.fields) + " " * 7
        else:
            line = cp.ljust(14) + ("; " if e.fields else "") + "; ".join(e.fields)
        if e.semi:
            line += ";"
        if com == "as is":
            if e.comment:
                line += " # " + e.comment
        elif com == "tricky" and kind != "A":
            line += ("# " if sp != "tight" else "#") + ("0041..005A ; Lu ; N # %s; 0300..036F %s" % (cp, "\\" if n % 3 == 0 else ""))
            if n % 97 == 0:
                out.append("# 0041 ; Lu ; A ; note: x ; y")
                out.append("")
        out.append(line)
    out.extend(extra)
    nl = "\r\n" if lay["lines"] == "CRLF" else "\n"
    text = nl.join(out) + nl
    if lay["lines"] == "no last newline":
        while out and (not out[-1].strip() or out[-1].lstrip()[0] == "#"):
            out.pop()
        text = nl.join(out)
    return text


def write(directory, lay, facts=None, only=None):
    """Writes a data directory; `facts` maps a file to its changed entries; `only` limits the layout to one file."""
    for name, kind in FILES.items():
        path = os.path.join(directory, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        entries = (facts or {}).get(name) or base(name)
        l = lay if only in (None, name) else AS_IS
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(render(arrange(entries, kind, l), kind, l, noisy=l.get("noise") == "malformed" and name in NOISY))
    for base_dir, dirs, files in os.walk(UCD):
        rel = os.path.relpath(base_dir, UCD)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            p = os.path.join(directory, r)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(os.path.join(UCD, r), p)


# ---------------------------------------------------------------------------------------------- changed facts
def _edges():
    """Code points whose facts are rotated: the edges of encodings, tables and planes, assigned and not. Not ASCII: those facts
    never change, and code may know them (as it knows the joiner, the variation selectors and the skin tones)."""
    s = {0x80, 0x9F, 0xA0, 0xAC, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x1FF, 0x200, 0x377, 0x378, 0x3FF, 0x400, 0x7FF, 0x800,
         0xFFF, 0x1000, 0x1FFF, 0x200B, 0x20FF, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xABFF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xF8FF, 0xF900,
         0xFEFE, 0xFF00, 0xFFEF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x100FF, 0x10100, 0x1F5FF, 0x1FFFE}
    for p in range(1, 17):
        s |= {p << 16, (p << 16) + 1, (p << 16) + 0xFF, (p << 16) + 0x100, (p << 16) + 0x8000, (p << 16) + 0xFFFE, (p << 16) + 0xFFFF}
    return sorted(s)


EDGES = _edges()
# ranges, not only single code points: within a table block, across blocks, across planes, a whole plane
SPANS = [(0x48010, 0x48013), (0x480F0, 0x4810F), (0x4FFF0, 0x5000F), (0x60000, 0x6FFFF), (0x78000, 0x780FF), (0xA0080, 0xA0280), (0xE0FF0, 0xE100F)]



def slots(k):
    """The slots of one world: those of plane 0, of every fourth plane beyond, and two of the spans. (The generator refuses
    data with more than 256 different table blocks; the real data has 200 of properties and 230 of names.)"""
    spans = [SPANS[k % len(SPANS)], SPANS[(k + 3) % len(SPANS)]]
    edges = [c for c in EDGES if c < 0x10000 or ((c >> 16) + k) % 4 == 0 or c == 0x10FFFF]
    return [(c, c) for c in edges if not any(a <= c <= b for a, b in spans)] + spans


LINE_ENDS = {0x0A, 0x0D, 0x2028, 0x2029}


def carve(entries, spans, field=0, only=None):
    """Takes the spans out of the ranges of `entries` (of the lines that `only` accepts); returns the new list."""
    out = []
    for e in entries:
        if e.text is not None or (only and not only(e)):
            out.append(e)
            continue
        parts = [(e.first, e.last)]
        for a, b in spans:
            if b < e.first or a > e.last:
                continue
            nxt = []
            for x, y in parts:
                if b < x or a > y:
                    nxt.append((x, y))
                    continue
                if x < a:
                    nxt.append((x, a - 1))
                if y > b:
                    nxt.append((b + 1, y))
            parts = nxt
        for x, y in parts:
            c = e.copy()
            c.first, c.last = x, y
            out.append(c)
    return out


def values_of(entries, only=None):
    r = []
    for e in entries:
        if e.text is None and (not only or only(e)) and e.fields not in r:
            r.append(e.fields)
    return r


def assign(name, k, slots, only=None, none=True):
    """One value per slot: the k-th of the property's values, rotated from slot to slot ("not listed" being one of them)."""
    entries = base(name)
    vals = [v for v in values_of(entries, only) if v != ["Regional_Indicator"]] + ([None] if none else [])  # 26 fixed code points
    out = carve(entries, slots, only=only)
    for i, (a, b) in enumerate(slots):
        v = vals[(i * 7 + k * 11) % len(vals)] if len(vals) % 7 and len(vals) % 11 else vals[(i + k) % len(vals)]
        if v is not None:
            out.append(Entry(a, b, list(v), "changed"))
    return out


def binary(name, k, slots, only_names=None):
    """Binary properties: each slot has a different subset of the file's properties."""
    entries = base(name)
    props = [v for v in values_of(entries) if len(v) == 1 and (not only_names or v[0] in only_names)]
    names = {tuple(p) for p in props}
    out = carve(entries, slots, only=lambda e: tuple(e.fields) in names)
    extra = []
    for j, p in enumerate(props):
        for i, (a, b) in enumerate(slots):
            if (i * 2654435761 + j * 40503 + k * 69069) >> 5 & 1:
                extra.append(Entry(a, b, list(p), "changed"))
    return out + extra


def facts(k):
    """The k-th world: file -> entries. Every single-valued property takes another value at every slot."""
    w = {}
    free = [s for s in slots(k) if not any(s[0] <= c <= s[1] for c in LINE_ENDS)]
    for n in ("Scripts.txt", "EastAsianWidth.txt", "DerivedAge.txt", "IndicSyllabicCategory.txt", "ScriptExtensions.txt", "auxiliary/GraphemeBreakProperty.txt",
              "auxiliary/WordBreakProperty.txt"):
        w[n] = assign(n, k, free)
    w["extracted/DerivedGeneralCategory.txt"] = general_category(k, free)
    w["HangulSyllableType.txt"] = assign("HangulSyllableType.txt", k, free)
    w["Blocks.txt"] = blocks(k)
    w["DerivedCoreProperties.txt"] = core(k, free, w)
    w["emoji/emoji-data.txt"] = binary("emoji/emoji-data.txt", k, free)
    sel = [Entry("%04X %s" % (a, v), None, [t], "changed", semi=True) for i, (a, b) in enumerate(free) if a == b and (i + k) % 3 == 0
           for v, t in (("FE0E", "text style"), ("FE0F", "emoji style"))]
    w["emoji/emoji-variation-sequences.txt"] = base("emoji/emoji-variation-sequences.txt") + sel
    mirror = [Entry("%04X" % a, None, ["%04X" % EDGES[(i * 5 + k) % len(EDGES)]], "changed") for i, (a, b) in enumerate(free) if a == b and (i + k) % 2 == 0]
    taken = {e.first for e in mirror}
    w["BidiMirroring.txt"] = [e for e in base("BidiMirroring.txt") if e.text is not None or e.first not in taken] + mirror
    newcharacters(w, k)
    return w


def general_category(k, slots):
    """As assign(), each line in the section of its category (the file is in sections)."""
    name = "extracted/DerivedGeneralCategory.txt"
    out = carve(base(name), slots)
    vals = [v[0] for v in values_of(base(name))]
    # the heading of a section is the comment line in front of its first data line
    sections, head = {}, None
    for e in base(name):
        if e.text is not None and "General_Category=" in e.text:
            head = e
        elif e.text is None and e.fields[0] not in sections:
            sections[e.fields[0]] = head
    add = {}
    for i, (a, b) in enumerate(slots):
        add.setdefault(vals[(i * 7 + k * 11) % len(vals)], []).append(Entry(a, b, [vals[(i * 7 + k * 11) % len(vals)]], "changed"))
    res = []
    where = {id(h): v for v, h in sections.items() if h is not None}
    section = None
    pending = []

    def flush():
        pending.extend(add.pop(section, []))
        pending.sort(key=lambda e: e.first)
        res.extend(pending)
        pending.clear()
    for e in out:
        if e.text is not None and "General_Category=" in e.text:
            flush()
            section = where.get(id(e))
            res.append(e)
        elif e.text is not None:
            if pending and e.text.strip():
                flush()
            res.append(e)
        else:
            pending.append(e)
    flush()
    for v, es in add.items():
        res.extend(es)
    return res


def blocks(k):
    """The blocks keep their names; every block's extent becomes that of the k-th next one, and one in five is given up to its neighbour's tail."""
    es = [e.copy() for e in base("Blocks.txt") if e.text is None]
    ext = [(e.first, e.last) for e in es]
    for i, e in enumerate(es):
        a, b = ext[(i + k) % len(es)]
        if (i + k) % 5 == 0 and b - a >= 31:
            b -= 16  # the last column of the block belongs to none
        e.first, e.last = a, b
    es.sort(key=lambda e: e.first)
    return es


def value_at(entries, c):
    for e in entries:
        if e.text is None and e.first <= c <= e.last:
            return e.fields[0]
    return None


def core(k, slots, w):
    """Rotated, but for Case_Ignorable, which is derived from the general category and the word break property."""
    name = "DerivedCoreProperties.txt"
    out = binary(name, k, slots)
    incb = [v for v in values_of(base(name)) if v[0] == "InCB"]
    out = carve(out, slots, only=lambda e: e.fields[0] in ("InCB", "Case_Ignorable"))
    for a, b in slots:
        if value_at(w["extracted/DerivedGeneralCategory.txt"], a) in ("Mn", "Me", "Cf", "Lm", "Sk") \
           or value_at(w["auxiliary/WordBreakProperty.txt"], a) in ("MidLetter", "MidNumLet", "Single_Quote"):
            out.append(Entry(a, b, ["Case_Ignorable"], "changed"))
    for i, (a, b) in enumerate(slots):
        j = (i + k) % (len(incb) + 1)
        if j < len(incb):
            out.append(Entry(a, b, list(incb[j]), "changed"))
    return out


TAGS = ("circle", "compat", "final", "font", "fraction", "initial", "isolated", "medial", "narrow", "noBreak", "small", "square", "sub", "super", "vertical", "wide")


def newcharacters(w, k):
    """New characters at unassigned places of UnicodeData.txt and the files derived from it: case, combining classes, decompositions, names."""
    lines, props, excl, fold, special, names = [], [], [], [], [], []
    taken = {int(e.first, 16) for e in base("UnicodeData.txt") if e.text is None}

    def char(c, gc="Lo", ccc=0, deco="", mirrored="N", u="", l="", t=""):
        assert c not in taken
        taken.add(c)
        nm = "WORLD %d CHARACTER-%05X" % (k, c)
        h = lambda x: "%04X" % x if x != "" else ""
        lines.append(Entry("%04X" % c, None, [nm, gc, str(ccc), "L", deco, "", "", "", mirrored, "", "", h(u), h(l), h(t)]))
        names.append(Entry(c, c, [nm]))

    # cased characters around the edges of planes; a pair, a titlecase form, mappings across planes and to one another
    for p in (0x4, 0x5, 0x9, 0xD):
        a = (p << 16) + 0x1000 * (k % 8)
        up, lo, ti = a, a + 1, a + 2
        char(up, "Lu", l=lo, t=ti if k % 2 else "")
        char(lo, "Ll", u=up, t=ti)
        char(ti, "Lt", u=up, l=lo)
        char(a + 0xFFF, "Ll", u=0x41 if p == 4 else 0x10400, t=0x41 if p == 4 else "")
        char(a + 0xFFE, "Lu", l=0x7A, mirrored="Y")
        char(a + 0xFFD, "Lo", mirrored="Y")  # a mirrored neighbour
        fold += [["%04X" % up, "C", "%04X" % lo], ["%04X" % ti, "S" if k % 2 else "C", "%04X" % lo]]
        if k % 2:
            fold.append(["%04X" % ti, "F", "%04X %04X" % (lo, lo)])
        fold += [["%04X" % (a + 0xFFE), "F", "007A 0308 0301"], ["%04X" % (a + 0xFFE), "S", "007A"], ["%04X" % (a + 0xFFE), "T", "0131"]]
        special.append(["%04X" % lo, "%04X" % lo, "%04X %04X" % (up, ti), "%04X 0301 0308" % up])
        special.append(["%04X" % up, "%04X 0307" % lo, "%04X" % ti, "%04X" % up])
        special.append(["%04X" % (a + 0xFFF), "0073 0073 0073", "0053 0073", "0053 0053"])
        special.append(["%04X" % lo, "0131", "%04X" % up, "%04X" % up, "tr"])  # conditional: to be left out
        special.append(["%04X" % (a + 0xFFD), "0061", "0062", "0063", "Final_Sigma"])
        special.append(["%04X" % (a + 0xFFE), "0061", "0062", "0063", "lt Not_Before_Dot"])
    # combining marks of every class around the existing ones
    classes = [1, 6, 9, 10, 36, 84, 103, 132, 199, 202, 216, 220, 228, 230, 232, 234, 240, 254, 253 - k % 8]
    marks = []
    for i, c in enumerate(classes):
        m = 0x68000 + 0x100 * (k % 16) + i * 3
        char(m, "Mn", ccc=c)
        marks.append(m)
    # canonical decompositions: primary composites, excluded ones, singletons; chains
    d = 0x79000 + 0x400 * (k % 4)
    char(d, "Lo", deco="0041 %04X" % marks[13])          # composite
    char(d + 1, "Lo", deco="%04X 0308" % d)              # chain on it
    char(d + 2, "Lo", deco="0071 0301")                  # composite of plain letters
    char(d + 3, "Lo", deco="0062 %04X" % marks[12])      # excluded by list
    char(d + 4, "Lo", deco="00C5")                       # singleton
    char(d + 5, "Lo", deco="%04X" % (d + 2))             # singleton on a composite
    char(d + 6, "Lo")
    char(d + 7, "Lo", deco="%04X %04X" % (d + 6, marks[0]))
    excl.append(d + 3)
    no = {d: "D", d + 1: "D", d + 2: "D", d + 7: "D", d + 3: "CD", d + 4: "CD", d + 5: "CD"}
    maybe = [marks[13], marks[0]]
    for i, t in enumerate(TAGS):
        c = d + 0x20 + i
        n = [1, 2, 3, 4, 5, 8, 12, 17, 18][(i + k) % 9]
        char(c, "No", deco="<%s> %s" % (t, " ".join("%04X" % x for x in [(0x61 + j) if j % 3 else 0xE9 for j in range(n)])))
        no[c] = "K"
    for c, f in no.items():
        if "C" in f:
            props.append(Entry(c, c, ["Full_Composition_Exclusion"], "Lo"))
        for form, cond in (("NFD_QC", f != "K"), ("NFC_QC", "C" in f), ("NFKD_QC", True), ("NFKC_QC", "C" in f or f == "K")):
            if cond:
                props.append(Entry(c, c, [form, "N"], "Lo"))
    for c in maybe:
        props += [Entry(c, c, ["NFC_QC", "M"], "Mn"), Entry(c, c, ["NFKC_QC", "M"], "Mn")]
    # mirrored characters: runs next to each other
    for i in range(6):
        if i != k % 6:
            char(0x7C000 + i, "Ps", mirrored="Y")
    lines += [e for e in base("UnicodeData.txt") if e.text is None]
    # the file is in order; the First/Last pairs stay together because their code points are in order, too
    lines.sort(key=lambda e: int(e.first, 16))
    w["UnicodeData.txt"] = lines
    w["extracted/DerivedName.txt"] = sorted([e for e in base("extracted/DerivedName.txt") if e.text is None] + names, key=lambda e: e.first)
    w["DerivedNormalizationProps.txt"] = base("DerivedNormalizationProps.txt") + props
    w["CompositionExclusions.txt"] = base("CompositionExclusions.txt") + [Entry(c, c, [], "changed") for c in excl]
    w["CaseFolding.txt"] = base("CaseFolding.txt") + [Entry(f[0], None, f[1:], "changed", semi=True) for f in fold]
    w["SpecialCasing.txt"] = base("SpecialCasing.txt") + [Entry(f[0], None, f[1:], "changed", semi=True) for f in special]
