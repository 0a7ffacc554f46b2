// N03: streaming normalizers against the whole-text reference, every way of cutting the input.
#include "mc.hpp"
#include "normref.hpp"
#include "utf8ref.hpp"
#include <libunicode/convert.h>
#include <libunicode/normalization.h>
using namespace unicode;

static Normalization_Form F[4] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };

/// Objects that live through many texts, so state left over from earlier ones shows.
struct Objects
{
    normalizer n[4] = { normalizer(F[0]), normalizer(F[1]), normalizer(F[2]), normalizer(F[3]) };
    utf8_normalizer u[4] = { utf8_normalizer(F[0]), utf8_normalizer(F[1]), utf8_normalizer(F[2]), utf8_normalizer(F[3]) };
};
static Objects obj;

static std::u32string feed32(normalizer& n, std::u32string_view t)
{
    std::u32string r;
    for (char32_t c: t)
        r += n.feed(c);
    r += n.flush();
    return r;
}

static void bad(std::string key, int k, std::string in, std::string got, std::string want, std::string how)
{
    mc::violation(key + "-" + nref::FormName[k], std::string(nref::FormName[k]) + " streaming (" + how + ") of " + in + " gives " + got + " expected " + want);
}

/// cuts: bit i set = a piece ends before byte i+1
static std::string feed8(utf8_normalizer& n, std::string_view s, uint64_t cuts)
{
    std::string r;
    size_t from = 0;
    for (size_t i = 0; i < s.size(); ++i)
        if (i + 1 == s.size() || (i < 63 && (cuts >> i & 1)))
        {
            r += n.feed(s.substr(from, i + 1 - from));
            from = i + 1;
        }
    r += n.flush();
    return r;
}
static std::string feedPieces(utf8_normalizer& n, std::string_view s, size_t a, size_t b)
{
    std::string r;
    r += n.feed(s.substr(0, a));
    r += n.feed(s.substr(a, b - a));
    r += n.feed({});
    r += n.feed(s.substr(b));
    r += n.flush();
    return r;
}

static void check(std::u32string_view t)
{
    mc::states++;
    bool scalars = true;
    for (char32_t c: t)
        scalars = scalars && mc::isScalar(c);
    std::string u8 = scalars ? mc::utf8(t) : std::string();
    for (int k = 0; k < 4; ++k)
    {
        auto want = nref::normalize(t, k);
        mc::cur("stream-u32", t.data(), t.size(), 4, k);
        auto got = feed32(obj.n[k], t);
        mc::traces++;
        if (got != want)
        {
            bad("u32", k, mc::hex(t), mc::hex(got), mc::hex(want), "character by character");
            obj.n[k] = normalizer(F[k]);
            normalizer fresh(F[k]);
            if (feed32(fresh, t) == want)
                bad("u32-reuse", k, mc::hex(t), mc::hex(got), mc::hex(want), "object used before");
        }
        if (!scalars)
            continue;
        auto want8 = mc::utf8(want);
        mc::cur("stream-u8", u8.data(), u8.size(), 1, k);
        auto one = [&](std::string const& g, std::string how) {
            mc::traces++;
            if (g != want8)
            {
                bad("u8", k, mc::hex(u8), mc::hex(g), mc::hex(want8), how);
                obj.u[k] = utf8_normalizer(F[k]);
            }
        };
        one(feed8(obj.u[k], u8, 0), "one piece");
        one(feed8(obj.u[k], u8, ~uint64_t(0)), "byte by byte");
    }
    mc::transitions += t.size();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int n = mc::opt.shard == 0 ? nref::selfCheck(mc::opt.args.at(0)) : 1;
    if (n < 1)
    {
        fprintf(stderr, "reference normalizer fails NormalizationTest.txt (%d)\n", n);
        return 2;
    }
    nref::texts(mc::opt.thorough ? 4 : 3, true, [&](std::u32string_view t) {
        if (!mc::enough())
            check(t);
    });
    auto const& A = nref::alphabet();
    uint64_t item = 0;
    // every way of cutting short texts into pieces
    mc::sequences(int(A.size()), 0, mc::opt.thorough ? 4 : 3, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::u32string t;
        for (int i: s)
            t += A[size_t(i)];
        auto u8 = mc::utf8(t);
        mc::states++;
        for (int k = 0; k < 4; ++k)
        {
            auto want = mc::utf8(nref::normalize(t, k));
            mc::cur("cuts-u8", u8.data(), u8.size(), 1, k);
            auto one = [&](std::string const& g, std::string how) {
                mc::traces++;
                if (g != want)
                {
                    bad("u8-cut", k, mc::hex(u8), mc::hex(g), mc::hex(want), how);
                    obj.u[k] = utf8_normalizer(F[k]);
                }
            };
            if (u8.size() <= 7)
                for (uint64_t m = 0; m < (uint64_t(1) << (u8.empty() ? 0 : u8.size() - 1)); ++m)
                    one(feed8(obj.u[k], u8, m), "cuts " + std::to_string(m));
            for (size_t a = 0; a <= u8.size(); ++a)
                for (size_t b = a; b <= u8.size(); ++b)
                    if (u8.size() <= 9 || b == a || b == a + 1)
                        one(feedPieces(obj.u[k], u8, a, b), "pieces " + std::to_string(a) + "," + std::to_string(b));
        }
    });
    // reset/flush at every point, then another text: the object must behave like a new one
    std::vector<std::u32string> seconds { U"\u0301", U"a\u0301", U"\u0327", U"\u1161\u11a8", U"\u11a8", U"\u0f73", U"\uff9e\u3099", U"x" };
    mc::sequences(int(A.size()), 1, 2, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::u32string t;
        for (int i: s)
            t += A[size_t(i)];
        t += U"e\u0301";
        auto u8 = mc::utf8(t);
        for (int k = 0; k < 4; ++k)
        {
            normalizer nr(F[k]), nf(F[k]);
            utf8_normalizer ur(F[k]), uf(F[k]);
            for (auto& sec: seconds)
            {
                auto want = nref::normalize(sec, k);
                for (size_t i = 0; i <= t.size(); ++i)
                {
                    mc::cur("reset-u32", t.data(), t.size(), 4, k, long(i));
                    for (size_t j = 0; j < i; ++j)
                        (void) nr.feed(t[j]), (void) nf.feed(t[j]);
                    nr.reset();
                    auto head = std::u32string(nf.flush());
                    auto g1 = feed32(nr, sec), g2 = feed32(nf, sec);
                    mc::traces += 2;
                    if (g1 != want)
                        bad("u32-after-reset", k, mc::hex(sec), mc::hex(g1), mc::hex(want), "after reset() behind " + mc::hex(t.substr(0, i)));
                    if (g2 != want)
                        bad("u32-after-flush", k, mc::hex(sec), mc::hex(g2), mc::hex(want), "after flush() behind " + mc::hex(t.substr(0, i)));
                    if (!nf.flush().empty() || !nr.flush().empty())
                        bad("u32-flush-twice", k, mc::hex(sec), "something", "nothing", "second flush()");
                }
                auto want8 = mc::utf8(want);
                for (size_t i = 0; i <= u8.size(); ++i)
                {
                    mc::cur("reset-u8", u8.data(), u8.size(), 1, k, long(i));
                    (void) ur.feed(std::string_view(u8).substr(0, i));
                    ur.reset();
                    (void) uf.feed(std::string_view(u8).substr(0, i));
                    (void) uf.flush();
                    auto sec8 = mc::utf8(sec);
                    auto g1 = feed8(ur, sec8, 0), g2 = feed8(uf, sec8, 0);
                    mc::traces += 2;
                    if (g1 != want8)
                        bad("u8-after-reset", k, mc::hex(sec8), mc::hex(g1), mc::hex(want8), "after reset() behind " + mc::hex(u8.substr(0, i)));
                    if (g2 != want8)
                        bad("u8-after-flush", k, mc::hex(sec8), mc::hex(g2), mc::hex(want8), "after flush() behind " + mc::hex(u8.substr(0, i)));
                }
            }
        }
    });
    // malformed bytes: cutting must not matter, complete characters survive, each malformed run gives U+FFFD
    unsigned char const B[] = { 'a', 0xCC, 0x81, 0xA7, 0xC3, 0xE1, 0x84, 0xF0, 0x90, 0xFF };
    auto collapse = [](std::u32string const& s) {
        std::u32string r;
        for (char32_t c: s)
            if (c != 0xFFFD || r.empty() || r.back() != 0xFFFD)
                r += c;
        return r;
    };
    mc::sequences(int(std::size(B)), 1, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::string b;
        for (int i: s)
            b += char(B[size_t(i)]);
        mc::states++;
        std::u32string ref;
        bool trailing = false;
        for (size_t i = 0; i < b.size();)
        {
            auto sub = std::string_view(b).substr(i);
            auto w = uref::wellFormed(sub);
            ref += w ? uref::value(sub, w) : char32_t(0xFFFD);
            i += w ? w : 1;
            trailing = !w;
        }
        for (int k = 0; k < 4; ++k)
        {
            auto want = collapse(nref::normalize(collapse(ref), k));
            std::string first;
            for (uint64_t m = 0; m < (uint64_t(1) << (b.size() - 1)); ++m)
            {
                mc::cur("malformed-u8", b.data(), b.size(), 1, k, long(m));
                auto g = feed8(obj.u[k], b, m);
                mc::traces++;
                if (m == 0)
                    first = g;
                else if (g != first)
                {
                    bad("u8-malformed-cut", k, mc::hex(b), mc::hex(g), mc::hex(first), "cuts " + std::to_string(m));
                    obj.u[k] = utf8_normalizer(F[k]);
                }
                if (m == 0)
                {
                    auto got = collapse(uref::decode(g));
                    auto w = want;
                    if (trailing) // an incomplete tail may be dropped or replaced
                    {
                        while (!w.empty() && w.back() == 0xFFFD)
                            w.pop_back();
                        while (!got.empty() && got.back() == 0xFFFD)
                            got.pop_back();
                    }
                    if (got != w)
                        bad("u8-malformed", k, mc::hex(b), mc::hex(got), mc::hex(w), "one piece");
                }
            }
        }
    });
    mc::sample("feeding e, U+0301 to an NFC normalizer and flushing gives " + mc::hex(feed32(obj.n[0], U"e\u0301")));
    return mc::finish();
}
