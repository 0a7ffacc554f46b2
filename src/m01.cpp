// M01: every per-character case mapping and case predicate against the Unicode data.
#include "mc.hpp"
#include "ucdref.hpp"
#include <libunicode/case_mapping.h>
using namespace unicode;

struct Ref
{
    std::vector<char32_t> simpleFold = std::vector<char32_t>(ucd::N);
    std::map<char32_t, std::vector<char32_t>> lower, title, upper, fold; // full mappings where they are not the simple ones
    Ref()
    {
        for (uint32_t c = 0; c < ucd::N; ++c)
            simpleFold[c] = c;
        ucd::lines("CaseFolding.txt", [&](auto const& f) {
            char32_t c = char32_t(strtoul(f[0].c_str(), nullptr, 16));
            auto m = ucd::cps(f[2]);
            if (f[1] == "C" || f[1] == "S")
                simpleFold[c] = m.at(0);
            else if (f[1] == "F")
                fold[c] = m;
            else if (f[1] != "T")
                exit(3);
        });
        ucd::lines("SpecialCasing.txt", [&](auto const& f) {
            if (f.size() > 4 && !f[4].empty())
                return; // conditional
            char32_t c = char32_t(strtoul(f[0].c_str(), nullptr, 16));
            lower[c] = ucd::cps(f[1]);
            title[c] = ucd::cps(f[2]);
            upper[c] = ucd::cps(f[3]);
        });
    }
};
static std::string str(case_mapping_result const& r)
{
    return r.length == 0 ? "itself" : r.length <= MaxCaseMappingLength ? mc::hex(r.codepoints.data(), r.length, 4) : "length " + std::to_string(r.length);
}
static void full(char const* what, char32_t c, case_mapping_result const& r, std::u32string const& want)
{
    bool const same = want.size() == 1 && want[0] == c;
    bool ok = r.is_identity() == (r.length == 0) && r.length <= MaxCaseMappingLength;
    if (ok)
        ok = same ? r.length == 0 : r.view() == want;
    if (!ok)
        mc::violation(std::string(what) + (same ? "-identity" : want.size() > 1 ? "-expanding" : ""),
                      std::string(what) + "(" + mc::hexcp(c) + ") is " + str(r) + ", Unicode says " + (same ? "itself" : mc::hex(want)));
}
static void simple(char const* what, char32_t c, char32_t got, char32_t want)
{
    if (got != want)
        mc::violation(std::string(what) + (want == c ? "-identity" : ""), std::string(what) + "(" + mc::hexcp(c) + ") is " + mc::hexcp(got) + ", Unicode says " + mc::hexcp(want));
}
static void flag(char const* what, char32_t c, bool got, bool want)
{
    if (got != want)
        mc::violation(what, std::string(what) + "(" + mc::hexcp(c) + ") is " + (got ? "true" : "false"));
}
static uint64_t beyond = 0;
static void unmapped(uint32_t c)
{
    ++beyond;
    if (simple_uppercase(c) != c || simple_lowercase(c) != c || simple_titlecase(c) != c || simple_casefold(c) != c || full_uppercase(c).length
        || full_lowercase(c).length || full_titlecase(c).length || full_casefold(c).length || changes_when_uppercased(c) || changes_when_lowercased(c)
        || changes_when_titlecased(c) || changes_when_casefolded(c))
        mc::violation("beyond-unicode", mc::hexcp(c) + " is changed by a case mapping (upper " + mc::hexcp(simple_uppercase(c)) + " lower " + mc::hexcp(simple_lowercase(c)) + " title "
                                            + mc::hexcp(simple_titlecase(c)) + " fold " + mc::hexcp(simple_casefold(c)) + ")");
    if (is_cased(c))
        mc::violation("beyond-unicode-cased", "is_cased(" + mc::hexcp(c) + ") is true");
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    Ref ref;
    auto const& d = ucd::data();
    std::vector<uint32_t> mapped;
    for (uint32_t c = 0; c < ucd::N; ++c)
    {
        auto of = [&](std::map<char32_t, std::vector<char32_t>> const& m, char32_t s) {
            auto it = m.find(c);
            return it == m.end() ? std::u32string(1, s) : std::u32string(it->second.begin(), it->second.end());
        };
        auto const U = of(ref.upper, d.upper[c]), L = of(ref.lower, d.lower[c]), T = of(ref.title, d.title[c]), F = of(ref.fold, ref.simpleFold[c]);
        std::u32string const self(1, char32_t(c));
        if (U != self || L != self || T != self || F != self)
            mapped.push_back(c);
        if (!mc::mine(c >> 8))
            continue;
        mc::cur("case mappings", &c, 1, 4);
        simple("simple_uppercase", c, simple_uppercase(c), d.upper[c]);
        simple("simple_lowercase", c, simple_lowercase(c), d.lower[c]);
        simple("simple_titlecase", c, simple_titlecase(c), d.title[c]);
        simple("simple_casefold", c, simple_casefold(c), ref.simpleFold[c]);
        full("full_uppercase", c, full_uppercase(c), U);
        full("full_lowercase", c, full_lowercase(c), L);
        full("full_titlecase", c, full_titlecase(c), T);
        full("full_casefold", c, full_casefold(c), F);
        auto const g = ucd::gc()[c];
        flag("is_cased", c, is_cased(c), g == "Lu" || g == "Ll" || g == "Lt");
        flag("is_case_ignorable", c, is_case_ignorable(c), ucd::core().at("Case_Ignorable")[c]);
        flag("changes_when_uppercased", c, changes_when_uppercased(c), U != self || d.upper[c] != c);
        flag("changes_when_lowercased", c, changes_when_lowercased(c), L != self || d.lower[c] != c);
        flag("changes_when_titlecased", c, changes_when_titlecased(c), T != self || d.title[c] != c);
        flag("changes_when_casefolded", c, changes_when_casefolded(c), F != self || ref.simpleFold[c] != c);
        mc::states++;
        mc::transitions += 14;
    }
    mc::extra["code points with a case mapping"] = mapped.size();
    if (mapped.size() < 2500)
        exit(3);
    // values beyond Unicode: the bit patterns of mapped code points with anything in front
    uint32_t v = 0;
    auto tick = [&](uint64_t c) {
        if ((c & 0xFFFFF) == 0)
        {
            v = uint32_t(c);
            mc::cur("case mappings beyond Unicode", &v, 1, 4);
        }
    };
    if (mc::opt.thorough)
        for (uint64_t c = ucd::N; c < uint64_t(1) << 32; ++c)
        {
            tick(c);
            if (mc::mine(c >> 12))
                unmapped(uint32_t(c));
        }
    else
    {
        for (uint32_t c = ucd::N; c < (mc::factsOnly ? ucd::N + 0x1000 : 0x1000000); ++c)
        {
            tick(c);
            if (mc::mine(c >> 12))
                unmapped(c);
        }
        for (int b = 24; b <= 32; ++b)
            for (int64_t k = -0x8000; k < 0x8000; ++k)
                if (uint64_t c = (uint64_t(1) << b) + uint64_t(k); c < uint64_t(1) << 32 && mc::mine(c >> 12))
                    unmapped(uint32_t(c));
        for (uint32_t c: mapped)
        {
            if (!mc::mine(c))
                continue;
            mc::cur("case mappings beyond Unicode", &c, 1, 4);
            for (uint32_t hi = 1; hi < (mc::factsOnly ? 2u : 0x800u); ++hi)
                unmapped(c | hi << 21);
            for (uint32_t hi: { 0x10000u, 0x100000u, 0x110000u })
                for (uint32_t n = 1; n < 64; ++n)
                    if (uint64_t(c) + uint64_t(hi) * n >= ucd::N)
                        unmapped(c + hi * n);
        }
    }
    mc::traces = mc::states + beyond;
    mc::extra["values beyond Unicode"] = beyond;
    for (uint32_t c: { 0xDFu, 0x130u, 0x1F80u, 0xFB03u })
        mc::sample(mc::hexcp(c) + " upper " + str(full_uppercase(c)) + " lower " + str(full_lowercase(c)) + " title " + str(full_titlecase(c)) + " fold " + str(full_casefold(c)));
    return mc::finish();
}
