// D02: every standalone property query for every code point (and values beyond) against the Unicode data.
#include "mc.hpp"
#include "ucdref.hpp"
#include "enumnames.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <format>
#include <sstream>
using namespace unicode;

template <typename E> static std::vector<E> column(ucd::Enum const& u, enumnames::Map<E> const& m, E unlisted)
{
    std::vector<E> id;
    for (auto& n: u.names)
    {
        E v = unlisted;
        for (auto& [k, e]: m)
            if (k == n)
                v = e;
        if (n != u.names[0] && v == unlisted && n != "Unknown")
        {
            fprintf(stderr, "no enumerator for %s\n", n.c_str());
            exit(2);
        }
        id.push_back(v);
    }
    std::vector<E> r(ucd::N);
    for (uint32_t c = 0; c < ucd::N; ++c)
        r[c] = id[u.v[c]];
    return r;
}
/// A value prints as its name does, in every state of the stream and with every format specification.
template <typename E> static void printing(E v, std::string const& w, char const* what)
{
    using F = std::ios_base;
    for (int width: { 0, 1, 7, 60 })
        for (F::fmtflags adjust: { F::fmtflags(), F::left, F::right, F::internal })
            for (char fill: { ' ', '*' })
                for (F::fmtflags more: { F::fmtflags(), F::hex | F::showbase, F::oct | F::uppercase | F::showpos, F::boolalpha | F::unitbuf })
                    for (auto before: { F::goodbit, F::eofbit, F::failbit })
                    {
                        std::ostringstream a, b;
                        for (auto o: { &a, &b })
                        {
                            o->width(width);
                            o->setf(adjust | more);
                            o->fill(fill);
                            o->setstate(before);
                        }
                        a << v;
                        b << w;
                        ++mc::transitions;
                        if (a.str() != b.str() || a.width() != b.width() || a.flags() != b.flags() || a.fill() != b.fill() || a.rdstate() != b.rdstate())
                            mc::violation(std::string("ostream-state-") + what,
                                          std::string(what) + " " + w + " prints as [" + a.str() + "] with width " + std::to_string(width) + ", its name as [" + b.str() + "]");
                    }
    auto same = [&](std::string const& a, std::string const& b, char const* spec) {
        ++mc::transitions;
        if (a != b)
            mc::violation(std::string("format-spec-") + what, std::string(what) + " " + w + " formats as [" + a + "] with " + spec + ", its name as [" + b + "]");
    };
#define SPEC(x) same(std::format(x, v), std::format(x, w), x)
    SPEC("{:s}");
    SPEC("{:60}");
    SPEC("{:>60}");
    SPEC("{:*<60}|");
    SPEC("{:*^61}|");
    SPEC("{:.3}");
    SPEC("{:7.3}");
    SPEC("{:.0}");
    SPEC("{0}{0}");
#undef SPEC
    same(std::format("{:{}.{}}", v, 9, 4), std::format("{:{}.{}}", w, 9, 4), "{:{}.{}}");
}
template <typename E> static void enumText(enumnames::Map<E> const& m, char const* what, char const* prefix = "")
{
    // The printed name of every value: the identifier that its name in the data becomes.
    std::set<std::string> seen;
    for (auto& [name, v]: m)
    {
        std::ostringstream os;
        os << v;
        std::string f = std::format("{}", v);
        std::string w = name;
        if constexpr (std::is_same_v<E, General_Category>)
            w = ucd::values("gc").at(name);
        else if constexpr (std::is_same_v<E, EastAsianWidth>)
        {
            static std::map<std::string, std::string> const k = { { "A", "Ambiguous" }, { "F", "FullWidth" }, { "H", "HalfWidth" }, { "N", "Neutral" }, { "Na", "Narrow" }, { "W", "Wide" } };
            w = k.at(name);
        }
        else if constexpr (std::is_same_v<E, Age>)
        {
            w = name == "NA" ? "Unassigned" : "V" + name;
            for (char& c: w)
                if (c == '.')
                    c = '_';
        }
        else
            for (char& c: w)
                if (c == ' ' || c == '-')
                    c = '_';
        mc::transitions += 2;
        if (os.str() != w)
            mc::violation(std::string("ostream-") + what, std::string(what) + " " + name + " prints as " + os.str() + ", expected " + w);
        if (f != w)
            mc::violation(std::string("format-") + what, std::string(what) + " " + name + " formats as " + f + ", expected " + w);
        if constexpr (std::is_same_v<E, EastAsianWidth>)
            if (to_string(v) != w)
                mc::violation("to_string-EastAsianWidth", "to_string gives " + to_string(v) + ", expected " + w);
        if (!mc::factsOnly)
            printing(v, w, what);
        if (!seen.insert(os.str()).second)
            mc::violation(std::string("ostream-") + what, "two values of " + std::string(what) + " print as " + os.str());
    }
}

static bool sameWidth(East_Asian_Width a, EastAsianWidth b)
{
    switch (b)
    {
        case EastAsianWidth::Ambiguous: return a == East_Asian_Width::Ambiguous;
        case EastAsianWidth::FullWidth: return a == East_Asian_Width::Fullwidth;
        case EastAsianWidth::HalfWidth: return a == East_Asian_Width::Halfwidth;
        case EastAsianWidth::Neutral: return a == East_Asian_Width::Neutral;
        case EastAsianWidth::Narrow: return a == East_Asian_Width::Narrow;
        case EastAsianWidth::Wide: return a == East_Asian_Width::Wide;
        default: return false;
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    auto sc = column(ucd::script(), enumnames::script(), Script::Unknown);
    auto gcb = column(ucd::gcb(), enumnames::gcb(), Grapheme_Cluster_Break::Undefined);
    // The file lists no code point as Other: unlisted ones give Undefined.
    for (auto& v: gcb)
        if (v == Grapheme_Cluster_Break::Other)
            v = Grapheme_Cluster_Break::Undefined;
    auto gc = column(ucd::gc(), enumnames::gc(), General_Category::Unassigned);
    auto blk = column(ucd::block(), enumnames::block(), Block::Unspecified);
    auto listedW = ucd::loadEnum("-", "EastAsianWidth.txt");
    auto eaw = column(listedW, enumnames::eaw(), EastAsianWidth::Unspecified);
    auto const& ext = ucd::scriptExtensionsListed();
    auto const& em = ucd::emoji();
    auto const& core = ucd::core();
    std::map<uint32_t, uint32_t> mirror;
    ucd::lines("BidiMirroring.txt", [&](auto const& f) { mirror[uint32_t(strtoul(f[0].c_str(), nullptr, 16))] = uint32_t(strtoul(f[1].c_str(), nullptr, 16)); });
    auto const& d = ucd::data();
    static std::map<int, char const*> const planes = { { 0, "Basic_Multilingual_Plane" }, { 1, "Supplementary_Multilingual_Plane" }, { 2, "Supplementary_Ideographic_Plane" },
                                                       { 3, "Tertiary_Ideographic_Plane" }, { 14, "Supplementary_Special_purpose_Plane" },
                                                       { 15, "Supplementary_Private_Use_Area_Plane" }, { 16, "Supplementary_Private_Use_Area_Plane" } };
    std::vector<General_Category> allGc;
    for (auto& [n, v]: enumnames::gc())
        allGc.push_back(v);
    struct Is { char const* name; bool (*f)(char32_t); General_Category g; };
    namespace G = general_category;
    static Is const is[] = {
#define IS(fn, e) { #fn, [](char32_t c) { return G::fn(c); }, General_Category::e },
        IS(is_close_punctuation, Close_Punctuation) IS(is_connector_punctuation, Connector_Punctuation) IS(is_control, Control)
        IS(is_currency_symbol, Currency_Symbol) IS(is_dash_punctuation, Dash_Punctuation) IS(is_decimal_number, Decimal_Number)
        IS(is_enclosing_mark, Enclosing_Mark) IS(is_final_punctuation, Final_Punctuation) IS(is_format, Format)
        IS(is_initial_punctuation, Initial_Punctuation) IS(is_letter_number, Letter_Number) IS(is_line_separator, Line_Separator)
        IS(is_lowercase_letter, Lowercase_Letter) IS(is_math_symbol, Math_Symbol) IS(is_modifier_letter, Modifier_Letter)
        IS(is_modifier_symbol, Modifier_Symbol) IS(is_nonspacing_mark, Nonspacing_Mark) IS(is_open_punctuation, Open_Punctuation)
        IS(is_other_letter, Other_Letter) IS(is_other_number, Other_Number) IS(is_other_punctuation, Other_Punctuation)
        IS(is_other_symbol, Other_Symbol) IS(is_paragraph_separator, Paragraph_Separator) IS(is_private_use, Private_Use)
        IS(is_space_separator, Space_Separator) IS(is_spacing_mark, Spacing_Mark) IS(is_surrogate, Surrogate)
        IS(is_titlecase_letter, Titlecase_Letter) IS(is_unassigned, Unassigned) IS(is_uppercase_letter, Uppercase_Letter)
#undef IS
    };
    std::vector<std::pair<Core_Property, ucd::Bits const*>> cores;
    std::vector<std::string> coreNames;
    for (auto& [n, v]: enumnames::core())
    {
        cores.push_back({ v, &core.at(n) });
        coreNames.push_back(n);
    }
    auto bad = [](std::string what, uint32_t c, std::string const& got, std::string const& want) {
        mc::violation(what, what + " for " + mc::hexcp(c) + ": " + got + ", Unicode data: " + want);
    };
    auto b2s = [](bool b) { return std::string(b ? "true" : "false"); };
    uint64_t q = 0;
    auto one = [&](uint32_t c) {
        bool in = c < ucd::N;
        ++q;
        mc::states++;
        std::string pl = planes.count(int(c >> 16)) && in ? planes.at(int(c >> 16)) : "Unassigned";
        if (plane(c) != enumnames::valueOf(enumnames::plane(), pl))
            bad("plane", c, enumnames::nameOf(enumnames::plane(), plane(c)), pl);
        auto wantB = in ? blk[c] : Block::Unspecified;
        if (block(c) != wantB)
            bad("block", c, enumnames::nameOf(enumnames::block(), block(c)), in ? ucd::block()[c] : "none");
        auto wantG = in ? gc[c] : General_Category::Unspecified;
        if (general_category::get(c) != wantG)
            bad("general_category::get", c, enumnames::nameOf(enumnames::gc(), general_category::get(c)), in ? ucd::gc()[c] : "none");
        for (auto g: allGc)
            if (contains(g, c) != (wantG == g))
                bad("contains(General_Category " + enumnames::nameOf(enumnames::gc(), g) + ")", c, b2s(contains(g, c)), b2s(wantG == g));
        if (contains(General_Category::Unspecified, c))
            bad("contains(General_Category Unspecified)", c, "true", "false");
        for (auto& x: is)
            if (x.f(c) != (wantG == x.g))
                bad(x.name, c, b2s(x.f(c)), b2s(wantG == x.g));
        for (size_t i = 0; i < cores.size(); ++i)
        {
            bool w = in && (*cores[i].second)[c];
            if (contains(cores[i].first, c) != w)
                bad("contains(Core_Property " + coreNames[i] + ")", c, b2s(!w), b2s(w));
        }
        auto wantS = in ? sc[c] : Script::Unknown;
        if (script(c) != wantS)
            bad("script", c, enumnames::nameOf(enumnames::script(), script(c)), in ? ucd::script()[c] : "none");
        auto e = script_extensions(c);
        auto it = ext.find(c);
        if (e.has_value() != (it != ext.end()))
            bad("script_extensions", c, e ? "listed" : "none", it != ext.end() ? "listed" : "none");
        else if (e)
        {
            std::multiset<std::string> got, want(it->second.begin(), it->second.end());
            for (auto s: *e)
                got.insert(enumnames::nameOf(enumnames::script(), s));
            if (got != want)
                bad("script_extensions", c, mc::join({ got.begin(), got.end() }, false), mc::join({ want.begin(), want.end() }, false));
        }
        auto wantGcb = in ? gcb[c] : Grapheme_Cluster_Break::Undefined;
        if (grapheme_cluster_break(c) != wantGcb)
            bad("grapheme_cluster_break", c, enumnames::nameOf(enumnames::gcb(), grapheme_cluster_break(c)), in ? ucd::gcb()[c] : "none");
        auto wantW = in ? eaw[c] : EastAsianWidth::Unspecified;
        if (east_asian_width(c) != wantW)
            bad("east_asian_width", c, to_string(east_asian_width(c)), in ? listedW[c] : "none");
#define EMOJI(f, n)                                                    \
    if (f(c) != (in && em.at(n)[c]))                                   \
        bad(#f, c, b2s(f(c)), b2s(in && em.at(n)[c]));
        EMOJI(is_emoji, "Emoji")
        EMOJI(is_emoji_component, "Emoji_Component")
        EMOJI(is_emoji_modifier, "Emoji_Modifier")
        EMOJI(is_emoji_modifier_base, "Emoji_Modifier_Base")
        EMOJI(is_emoji_presentation, "Emoji_Presentation")
        EMOJI(is_extended_pictographic, "Extended_Pictographic")
#undef EMOJI
        bool m = in && d.mirrored[c];
        if (is_mirrored(c) != m)
            bad("is_mirrored", c, b2s(!m), b2s(m));
        auto mi = mirror.find(c);
        uint32_t wantM = mi == mirror.end() ? c : mi->second;
        if (uint32_t(bidi_mirroring_glyph(c)) != wantM)
            bad("bidi_mirroring_glyph", c, mc::hexcp(bidi_mirroring_glyph(c)), mc::hexcp(wantM));
        q += 12 + allGc.size() + std::size(is) + cores.size();
        // agreement with the compressed record, where both know the code point
        if (in)
        {
            auto p = codepoint_properties::get(c);
            if (p.script != script(c) || p.general_category != general_category::get(c)
                || (grapheme_cluster_break(c) != Grapheme_Cluster_Break::Undefined && p.grapheme_cluster_break != grapheme_cluster_break(c))
                || (east_asian_width(c) != EastAsianWidth::Unspecified && !sameWidth(p.east_asian_width, east_asian_width(c)))
                || p.is_emoji() != is_emoji(c) || p.is_emoji_component() != is_emoji_component(c) || p.is_emoji_modifier() != is_emoji_modifier(c)
                || p.is_emoji_modifier_base() != is_emoji_modifier_base(c) || p.is_emoji_presentation() != is_emoji_presentation(c)
                || p.is_extended_pictographic() != is_extended_pictographic(c) || p.is_core_grapheme_extend() != contains(Core_Property::Grapheme_Extend, c))
                bad("record-agreement", c, "the record differs from the standalone queries", "the same property values");
        }
    };
    uint32_t c = 0;
    for (; c < ucd::N; ++c)
        if (mc::mine(c >> 8))
        {
            mc::cur("property queries", &c, 1, 4);
            one(c);
        }
    for (int b = 20; b < 32; ++b)
        for (int64_t k = -300; k <= 300; ++k)
        {
            int64_t x = (int64_t(1) << b) + k;
            if (x >= int64_t(ucd::N) && x <= 0xFFFFFFFFll)
            {
                c = uint32_t(x);
                mc::cur("property queries (beyond Unicode)", &c, 1, 4);
                one(c);
            }
        }
    for (int64_t k = mc::opt.shard; k < (mc::factsOnly ? 0x1000 : mc::opt.thorough ? 0x300000 : 0x40000); k += mc::opt.shards)
    {
        c = uint32_t(0xFFFFFFFFu - k);
        mc::cur("property queries (beyond Unicode)", &c, 1, 4);
        one(c);
        c = uint32_t(ucd::N + k);
        one(c);
    }
    if (mc::opt.shard == 0)
    {
        enumText(enumnames::script(), "Script");
        enumText(enumnames::gc(), "General_Category");
        enumText(enumnames::gcb(), "Grapheme_Cluster_Break");
        enumText(enumnames::wb(), "Word_Break");
        enumText(enumnames::incb(), "Indic_Conjunct_Break");
        enumText(enumnames::eaw(), "EastAsianWidth");
        enumText(enumnames::age(), "Age");
        enumText(enumnames::block(), "Block");
        enumText(enumnames::core(), "Core_Property");
        enumText(enumnames::plane(), "Plane");
        if (!mc::factsOnly)
        {
            auto named = [](auto v, std::string const& n, char const* what) {
                std::ostringstream os;
                os << v;
                mc::transitions += 2;
                if (os.str() != n || std::format("{}", v) != n)
                    mc::violation(std::string("ostream-") + what, std::string(what) + " " + n + " prints as " + os.str() + " and formats as " + std::format("{}", v));
                printing(v, n, what);
            };
            named(PresentationStyle::Text, "Text", "PresentationStyle");
            named(PresentationStyle::Emoji, "Emoji", "PresentationStyle");
#define NAMED(x) named(EmojiSegmentationCategory::x, #x, "EmojiSegmentationCategory");
            NAMED(Invalid) NAMED(Emoji) NAMED(EmojiTextPresentation) NAMED(EmojiEmojiPresentation) NAMED(EmojiModifierBase) NAMED(EmojiModifier)
            NAMED(EmojiVSBase) NAMED(RegionalIndicator) NAMED(KeyCapBase) NAMED(CombiningEnclosingKeyCap) NAMED(CombiningEnclosingCircleBackslash)
            NAMED(ZWJ) NAMED(VS15) NAMED(VS16) NAMED(TagBase) NAMED(TagSequence) NAMED(TagTerm)
#undef NAMED
        }
        // ages: exactly the versions of DerivedAge.txt, and no other string up to five characters over digits and dots
        std::map<std::string, Age> ages;
        for (auto& [n, v]: enumnames::age())
            if (n != "NA")
                ages[n] = v;
        static char const alpha[] = "0123456789.V ";
        uint64_t strings = 0;
        mc::sequences(int(sizeof alpha) - 1, 0, mc::factsOnly ? 3 : 5, [&](std::vector<int> const& s) {
            std::string t;
            for (int i: s)
                t += alpha[i];
            mc::cur("make_age", t.data(), t.size(), 1);
            auto a = make_age(t);
            ++strings;
            auto it = ages.find(t);
            if (a.has_value() != (it != ages.end()) || (a && *a != it->second))
                mc::violation("make_age", "make_age(\"" + t + "\") " + (a ? "= " + enumnames::nameOf(enumnames::age(), *a) : "is not recognized"));
        });
        for (auto& [n, v]: ages)
        {
            ++strings;
            if (make_age(n) != std::optional<Age>(v))
                mc::violation("make_age", "make_age(\"" + n + "\") is wrong");
            for (std::string t: { n + "0", n + ".0", n + " ", " " + n, n + std::string(1, '\0'), "0" + n, n.substr(1), n.substr(0, n.size() - 1) })
                if (make_age(t).has_value() != (ages.count(t) != 0))
                    mc::violation("make_age", "make_age(\"" + t + "\") is " + (make_age(t) ? "recognized" : "not recognized"));
        }
        mc::extra["age strings"] = strings;
    }
    mc::transitions += q;
    mc::traces = q;
    mc::sample("script_extensions(U+0951) has " + std::to_string(script_extensions(0x951)->size()) + " scripts");
    return mc::finish();
}
