// Independent reader of the Unicode Character Database in /usr/share/unicode.
// Everything is kept as interned strings (the UCD's own short or long names), so that it shares
// nothing with the repository's generator or its enums.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace ucd
{
constexpr uint32_t N = 0x110000;
inline std::string const Dir = getenv("VERIF_UCD") ? std::string(getenv("VERIF_UCD")) + "/" : std::string("/usr/share/unicode/");

inline std::string trim(std::string_view s)
{
    size_t a = 0, b = s.size();
    while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == '\r' || s[a] == '\n'))
        ++a;
    while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t' || s[b - 1] == '\r' || s[b - 1] == '\n'))
        --b;
    return std::string(s.substr(a, b - a));
}
inline std::vector<std::string> split(std::string_view s, char sep)
{
    std::vector<std::string> r;
    size_t p = 0;
    while (true)
    {
        size_t q = s.find(sep, p);
        if (q == std::string_view::npos)
        {
            r.push_back(trim(s.substr(p)));
            return r;
        }
        r.push_back(trim(s.substr(p, q - p)));
        p = q + 1;
    }
}
inline std::vector<char32_t> cps(std::string_view s)
{
    std::vector<char32_t> r;
    for (auto& x: split(s, ' '))
        if (!x.empty())
            r.push_back(char32_t(strtoul(x.c_str(), nullptr, 16)));
    return r;
}
/// Calls f(fields) for each data line of a UCD file (comments removed).
inline void lines(std::string const& file, std::function<void(std::vector<std::string> const&)> const& f, bool keepHash = false)
{
    std::string text;
    if (file.size() > 4 && file.compare(file.size() - 4, 4, ".bz2") == 0)
    {
        FILE* p = popen(("bzcat " + Dir + file).c_str(), "r");
        char buf[65536];
        size_t n;
        while (p && (n = fread(buf, 1, sizeof buf, p)) > 0)
            text.append(buf, n);
        if (!p || pclose(p) != 0)
            text.clear();
    }
    else
    {
        std::ifstream in(Dir + file, std::ios::binary);
        text.assign(std::istreambuf_iterator<char>(in), {});
    }
    if (text.empty())
    {
        fprintf(stderr, "cannot read %s\n", file.c_str());
        exit(3);
    }
    size_t p = 0;
    while (p < text.size())
    {
        size_t q = text.find('\n', p);
        if (q == std::string::npos)
            q = text.size();
        std::string_view l(text.data() + p, q - p);
        p = q + 1;
        if (!keepHash)
        {
            size_t h = l.find('#');
            if (h != std::string_view::npos)
                l = l.substr(0, h);
        }
        auto t = trim(l);
        if (t.empty() || t[0] == '@')
            continue;
        f(split(t, ';'));
    }
}
struct Range
{
    uint32_t a, b;
};
inline Range range(std::string const& s)
{
    auto p = s.find("..");
    uint32_t a = uint32_t(strtoul(s.c_str(), nullptr, 16));
    return { a, p == std::string::npos ? a : uint32_t(strtoul(s.c_str() + p + 2, nullptr, 16)) };
}

/// An enumerated property: value id per code point, with names.
struct Enum
{
    std::vector<std::string> names;
    std::vector<uint16_t> v = std::vector<uint16_t>(N, 0);
    explicit Enum(std::string def = "") { names.push_back(std::move(def)); }
    int id(std::string const& s)
    {
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] == s)
                return int(i);
        names.push_back(s);
        return int(names.size()) - 1;
    }
    int find(std::string const& s) const
    {
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] == s)
                return int(i);
        return -1;
    }
    void set(Range r, std::string const& s)
    {
        auto k = uint16_t(id(s));
        for (uint32_t c = r.a; c <= r.b && c < N; ++c)
            v[c] = k;
    }
    std::string const& operator[](uint32_t c) const { return names[c < N ? v[c] : 0]; }
    bool is(uint32_t c, char const* s) const { return (*this)[c] == s; }
    void load(std::string const& file, size_t field = 1)
    {
        lines(file, [&](auto const& f) {
            if (f.size() > field)
                set(range(f[0]), f[field]);
        });
    }
};

using Bits = std::vector<bool>;
inline std::map<std::string, Bits> loadBinary(std::string const& file)
{
    std::map<std::string, Bits> r;
    lines(file, [&](auto const& f) {
        if (f.size() != 2)
            return;
        auto& b = r[f[1]];
        if (b.empty())
            b.resize(N);
        auto g = range(f[0]);
        for (uint32_t c = g.a; c <= g.b; ++c)
            b[c] = true;
    });
    return r;
}

inline Enum loadEnum(char const* def, std::string const& file, size_t field = 1)
{
    Enum e(def);
    e.load(file, field);
    return e;
}

inline Enum const& gcb()
{
    static Enum e = loadEnum("Other", "auxiliary/GraphemeBreakProperty.txt");
    return e;
}
inline Enum const& wb()
{
    static Enum e = loadEnum("Other", "auxiliary/WordBreakProperty.txt");
    return e;
}
inline Enum const& gc() // two-letter codes
{
    static Enum e = loadEnum("Cn", "extracted/DerivedGeneralCategory.txt");
    return e;
}
inline Enum const& eaw()
{
    static Enum e = loadEnum("N", "EastAsianWidth.txt");
    return e;
}
inline Enum const& hangul()
{
    static Enum e = loadEnum("NA", "HangulSyllableType.txt");
    return e;
}
inline Enum const& insc()
{
    static Enum e = loadEnum("Other", "IndicSyllabicCategory.txt");
    return e;
}
inline Enum const& age()
{
    static Enum e = loadEnum("NA", "DerivedAge.txt");
    return e;
}
inline Enum const& block()
{
    static Enum e = loadEnum("No_Block", "Blocks.txt");
    return e;
}
inline Enum const& script() // long names
{
    static Enum e = loadEnum("Unknown", "Scripts.txt");
    return e;
}
inline Enum const& incb()
{
    static Enum e = [] {
        Enum x("None");
        lines("DerivedCoreProperties.txt", [&](auto const& f) {
            if (f.size() == 3 && f[1] == "InCB")
                x.set(range(f[0]), f[2]);
        });
        return x;
    }();
    return e;
}
inline std::map<std::string, Bits> const& emoji()
{
    static auto m = loadBinary("emoji/emoji-data.txt");
    return m;
}
inline std::map<std::string, Bits> const& core()
{
    static auto m = loadBinary("DerivedCoreProperties.txt");
    return m;
}
inline std::map<std::string, Bits> const& propList()
{
    static auto m = loadBinary("PropList.txt");
    return m;
}
inline bool isEmoji(uint32_t c) { return c < N && emoji().at("Emoji")[c]; }
inline bool isExtPic(uint32_t c) { return c < N && emoji().at("Extended_Pictographic")[c]; }
inline bool isEmojiPresentation(uint32_t c) { return c < N && emoji().at("Emoji_Presentation")[c]; }
inline bool isEmojiModifier(uint32_t c) { return c < N && emoji().at("Emoji_Modifier")[c]; }
inline bool isEmojiModifierBase(uint32_t c) { return c < N && emoji().at("Emoji_Modifier_Base")[c]; }
inline bool isEmojiComponent(uint32_t c) { return c < N && emoji().at("Emoji_Component")[c]; }
inline Bits const& variationBases()
{
    static Bits b = [] {
        Bits x(N);
        lines("emoji/emoji-variation-sequences.txt", [&](auto const& f) {
            auto v = cps(f[0]);
            if (!v.empty())
                x[v[0]] = true;
        });
        return x;
    }();
    return b;
}
inline bool isVirama(uint32_t c) { return insc().is(c, "Virama") || insc().is(c, "Invisible_Stacker"); }

/// short alias <-> long name of property values, e.g. values("sc")["Latn"] == "Latin"
inline std::map<std::string, std::string> const& values(std::string const& prop)
{
    static std::map<std::string, std::map<std::string, std::string>> m = [] {
        std::map<std::string, std::map<std::string, std::string>> r;
        lines("PropertyValueAliases.txt", [&](auto const& f) {
            if (f.size() >= 3)
                r[f[0]][f[1]] = f[2];
        });
        return r;
    }();
    return m.at(prop);
}

/// Script extensions as a set of long script names; code points not listed have {script}.
inline std::map<uint32_t, std::vector<std::string>> const& scriptExtensionsListed()
{
    static auto m = [] {
        std::map<uint32_t, std::vector<std::string>> r;
        auto const& sc = values("sc");
        lines("ScriptExtensions.txt", [&](auto const& f) {
            auto g = range(f[0]);
            std::vector<std::string> v;
            for (auto& s: split(f[1], ' '))
                if (!s.empty())
                    v.push_back(sc.at(s));
            for (uint32_t c = g.a; c <= g.b; ++c)
                r[c] = v;
        });
        return r;
    }();
    return m;
}

struct UnicodeData
{
    std::vector<std::string> name = std::vector<std::string>(N);
    std::vector<uint8_t> ccc = std::vector<uint8_t>(N, 0);
    std::vector<char32_t> upper, lower, title;
    std::map<char32_t, std::vector<char32_t>> canon, compat; // single-step mappings
    std::map<char32_t, std::string> compatTag;
    std::vector<bool> mirrored = std::vector<bool>(N);
    std::vector<bool> assigned = std::vector<bool>(N);
    std::vector<std::string> category = std::vector<std::string>(N, "Cn");
};
inline UnicodeData const& data()
{
    static UnicodeData d = [] {
        UnicodeData u;
        u.upper.resize(N);
        u.lower.resize(N);
        u.title.resize(N);
        for (uint32_t c = 0; c < N; ++c)
            u.upper[c] = u.lower[c] = u.title[c] = c;
        uint32_t first = 0;
        bool inRange = false;
        lines(
            "UnicodeData.txt",
            [&](auto const& f) {
                uint32_t c = uint32_t(strtoul(f[0].c_str(), nullptr, 16));
                uint32_t a = c;
                if (inRange)
                    a = first;
                inRange = false;
                if (f[1].size() > 8 && f[1].find(", First>") != std::string::npos)
                {
                    first = c;
                    inRange = true;
                }
                for (uint32_t k = a; k <= c; ++k)
                {
                    u.name[k] = f[1];
                    u.assigned[k] = true;
                    u.category[k] = f[2];
                    u.ccc[k] = uint8_t(atoi(f[3].c_str()));
                    u.mirrored[k] = f[9] == "Y";
                }
                if (!f[5].empty())
                {
                    if (f[5][0] == '<')
                    {
                        u.compat[c] = cps(f[5].substr(f[5].find('>') + 1));
                        u.compatTag[c] = f[5].substr(1, f[5].find('>') - 1);
                    }
                    else
                        u.canon[c] = cps(f[5]);
                }
                if (!f[12].empty())
                    u.upper[c] = char32_t(strtoul(f[12].c_str(), nullptr, 16));
                if (!f[13].empty())
                    u.lower[c] = char32_t(strtoul(f[13].c_str(), nullptr, 16));
                u.title[c] = u.upper[c];
                if (f.size() > 14 && !f[14].empty())
                    u.title[c] = char32_t(strtoul(f[14].c_str(), nullptr, 16));
            },
            true);
        return u;
    }();
    return d;
}
} // namespace ucd
