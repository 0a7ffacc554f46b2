// S01: the ASCII scan at one vector width against its specification.
#include <libunicode/scan.h>

#include "mc.hpp"
#include "simdstub.hpp"

using namespace unicode;

static bool isText(uint8_t b) { return b >= 0x20 && b < 0x80; }
static size_t want(std::string_view s, size_t max)
{
    size_t n = 0;
    while (n < s.size() && n < max && isText(uint8_t(s[n])))
        ++n;
    return n;
}
static std::string tag;
static void check(std::string_view placed, size_t max)
{
    mc::cur("scan_for_text_ascii", placed.data(), placed.size(), 1, long(max));
    size_t got = detail::scan_for_text_ascii(placed, max);
    ++mc::transitions;
    if (size_t w = want(placed, max); got != w)
        mc::violation(tag, "text of " + std::to_string(placed.size()) + " bytes " + mc::hex(placed) + " max " + std::to_string(max) + ": scan gives " + std::to_string(got) + ", expected "
                               + std::to_string(w));
    if (mc::enough())
        exit(mc::finish());
}
static uint64_t item = 0;
static bool mine() { return mc::mine(item++); }

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (!mc::simdUsable())
    {
        mc::note("vector width " + std::string(getenv("MC_SIMD")) + " is not supported by this CPU: not explored");
        return mc::finish();
    }
    mc::Guarded g(1 << 18);
    auto fill = [](size_t L, unsigned salt) {
        std::string s(L, ' ');
        for (size_t i = 0; i < L; ++i)
            s[i] = char(0x20 + (i * 29 + salt * 13) % 0x60);
        return s;
    };
    auto both = [&](std::string const& s, std::vector<size_t> const& maxes) {
        ++mc::states;
        auto e = g.put(s);
        for (auto m: maxes)
            check(e, m);
        memcpy(g.atBegin(), s.data(), s.size());
        for (auto m: maxes)
            check({ g.atBegin(), s.size() }, m);
        ++mc::traces;
    };
    size_t const maxL = mc::opt.thorough ? 400 : 200;
    uint8_t const bad[] = { 0x00, 0x0A, 0x1F, 0x80, 0x9F, 0xC3, 0xFF };
    // no bad byte: every length and every maximum
    tag = "clean";
    for (size_t L = 0; L <= maxL; ++L)
    {
        if (!mine())
            continue;
        std::vector<size_t> ms;
        for (size_t m = 0; m <= L + 3; ++m)
            ms.push_back(m);
        ms.push_back(100000);
        ms.push_back(~size_t(0));
        for (unsigned salt = 0; salt < 4; ++salt)
            both(fill(L, salt), ms);
    }
    // first bad byte at every position, every length, maxima around both; what follows varies
    tag = "first-bad";
    for (size_t L = 1; L <= maxL; ++L)
        for (size_t p = 0; p < L; ++p)
        {
            if (!mine())
                continue;
            for (auto b: bad)
            {
                std::vector<size_t> ms { p, p + 1, L, ~size_t(0) };
                if (p > 0)
                    ms.push_back(p - 1);
                if (L > 1)
                    ms.push_back(L - 1);
                auto s = fill(L, unsigned(p));
                s[p] = char(b);
                both(s, ms);
                auto t = s; // everything behind it is bad as well
                for (size_t i = p; i < L; ++i)
                    t[i] = char(bad[(i + b) % 7]);
                both(t, ms);
                if (p + 1 < L) // a second one, of another kind, at the next / last position
                {
                    t = s;
                    t[p + 1] = char(bad[(p + b) % 7]);
                    t[L - 1] = char(bad[(L + b) % 7]);
                    both(t, ms);
                }
            }
        }
    // every byte value at every position of block-sized texts
    tag = "byte-value";
    for (size_t L: { 1u, 15u, 16u, 17u, 31u, 33u, 63u, 64u, 65u, 66u, 127u, 129u, 130u, 200u })
        for (size_t p = 0; p < L; ++p)
        {
            if (!mine())
                continue;
            for (int b = 0; b < 256; ++b)
            {
                auto s = fill(L, unsigned(b));
                s[p] = char(b);
                both(s, { L, ~size_t(0), p, p + 1 });
            }
        }
    // pairs of bad positions
    tag = "two-bad";
    size_t const P = mc::opt.thorough ? 200 : 134;
    for (size_t p = 0; p < P; ++p)
        for (size_t q = p + 1; q < P; ++q)
        {
            if (!mine())
                continue;
            auto s = fill(P, unsigned(p + q));
            s[p] = char(bad[p % 7]);
            s[q] = char(bad[q % 7]);
            both(s, { P, p, p + 1, q, ~size_t(0) });
        }
    // every alignment of the start
    tag = "alignment";
    for (size_t a = 0; a < 64; ++a)
        for (size_t L = 0; L <= 140; ++L)
        {
            if (!mine())
                continue;
            auto s = fill(L, unsigned(a));
            for (size_t p = 0; p <= L; p += 1 + (L > 70 ? 3 : 0))
            {
                auto t = s;
                if (p < L)
                    t[p] = char(bad[(a + p) % 7]);
                memset(g.atBegin(), 'x', a);
                memcpy(g.atBegin() + a, t.data(), L);
                memset(g.atBegin() + a + L, 'x', 64);
                ++mc::states;
                check({ g.atBegin() + a, L }, ~size_t(0));
                check({ g.atBegin() + a, L }, p);
                check({ g.atBegin() + a, L }, L / 2);
                ++mc::traces;
            }
        }
    // long texts
    tag = "long";
    for (size_t L: { 255u, 256u, 257u, 1023u, 1024u, 1025u, 4096u, 65535u, 65536u, 65537u, 200000u })
        for (auto b: bad)
        {
            if (!mine())
                continue;
            for (size_t p: { size_t(0), L / 2, L - 66, L - 65, L - 64, L - 63, L - 33, L - 32, L - 17, L - 16, L - 1 })
            {
                auto s = fill(L, b);
                s[p] = char(b);
                both(s, { L, p, p + 1, ~size_t(0), L - 1, 65536 });
            }
            both(fill(L, 1), { L, L - 1, 65536, 255, 256, ~size_t(0) });
        }
    // empty views, with and without an address
    tag = "empty";
    check(std::string_view(), 0);
    check(std::string_view(), 80);
    check(std::string_view(g.atEnd(0), 0), 80);
    mc::sample("vector width " + std::string(getenv("MC_SIMD") ? getenv("MC_SIMD") : "default") + ": lengths 0.." + std::to_string(maxL) + ", first bad byte at every position");
    return mc::finish();
}
