// A01: the C interface against the C++ library, called from a C translation unit, on guarded buffers.
#include <libunicode/convert.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/width.h>

#include "mc.hpp"
#include "utf8ref.hpp"

extern "C"
{
typedef uint_least32_t u32c;
struct u8u32_stream_state;
typedef u8u32_stream_state* H;
int c_gc_count(u32c const*, size_t);
int c_gc_count8(char const*, size_t);
int c_gc_width(u32c const*, size_t, int);
int c_gc_width8(char const*, size_t, int);
int c_unbreakable(u32c, u32c);
H c_create(void);
int c_run(H, char, u32c*);
void c_destroy(H*);
int c_convert(u32c const*, size_t, char*, size_t);
int c_valid(u32c);
u32c c_cleared(u32c);
u32c c_mask(u32c);
int c_nonmod(void);
int c_mod(void);
}
using namespace unicode;
static mc::Guarded g32(1 << 20), g8(1 << 20), gOut(1 << 20);
static H hot; // one stream converter that lives through the whole run

static void expect(char const* what, long got, long want, std::string const& in)
{
    mc::traces++;
    if (got != want)
        mc::violation(what, std::string(what) + "(" + in + ") = " + std::to_string(got) + " expected " + std::to_string(want));
}

/// counts and widths against the C++ operations
static void counts(std::u32string_view t)
{
    mc::states++;
    mc::transitions += t.size();
    auto in = g32.put32(t);
    auto p = reinterpret_cast<u32c const*>(in.data());
    long n = 0, w = 0, b = 0;
    for (size_t i = 0; i < t.size();)
    {
        // clusters through the stateful C++ interface
        grapheme_segmenter_state st;
        grapheme_process_init(t[i], st);
        size_t j = i + 1;
        while (j < t.size() && !grapheme_process_breakable(t[j], st))
            ++j;
        ++n;
        w += grapheme_cluster_width(t.substr(i, j - i));
        b += unicode::width(t[i]);
        i = j;
    }
    auto h = mc::hex(t.substr(0, std::min<size_t>(t.size(), 12)));
    mc::cur("u32_gc", in.data(), in.size(), 4);
    expect("u32_gc_count", c_gc_count(p, t.size()), n, h);
    expect("u32_gc_width-modifiable", c_gc_width(p, t.size(), c_mod()), w, h);
    expect("u32_gc_width-non-modifiable", c_gc_width(p, t.size(), c_nonmod()), b, h);
    if (t.size() == 2)
        expect("u32_grapheme_unbreakable", c_unbreakable(t[0], t[1]) != 0, n == 1, h);
    bool scalars = true;
    for (char32_t c: t)
        scalars = scalars && mc::isScalar(c);
    if (scalars)
    {
        auto in8 = g8.put(mc::utf8(t));
        mc::cur("u8_gc", in8.data(), in8.size(), 1);
        expect("u8_gc_count", c_gc_count8(in8.data(), in8.size()), n, h);
        expect("u8_gc_width-modifiable", c_gc_width8(in8.data(), in8.size(), c_mod()), w, h);
        expect("u8_gc_width-non-modifiable", c_gc_width8(in8.data(), in8.size(), c_nonmod()), b, h);
    }
}

/// UTF-32 -> UTF-8 with every output size
static void conversion(std::u32string_view t)
{
    mc::states++;
    auto in = g32.put32(t);
    std::string want;
    std::vector<size_t> ends { 0 };
    for (char32_t c: t)
    {
        encoder<char> e;
        char buf[8];
        want.append(buf, size_t(e(c, buf) - buf));
        ends.push_back(want.size());
    }
    bool scalars = true;
    for (char32_t c: t)
        scalars = scalars && mc::isScalar(c);
    if (scalars && want != mc::utf8(t))
        mc::violation("encoder", "encoder<char> gives " + mc::hex(want) + " for " + mc::hex(t));
    size_t const L = want.size();
    for (size_t d = 0; d <= L + 2; ++d)
    {
        if (L > 64 && d > 2 && d + 6 < L)
            continue;
        for (int side = 0; side < 2; ++side)
        {
            char* out = side ? gOut.atBegin() + 8 : gOut.atEnd(d);
            memset(out - (side ? 8 : 0), 0x5A, d + (side ? 16 : 0));
            mc::cur("u32u8_convert", in.data(), in.size(), 4, long(d));
            int r = c_convert(reinterpret_cast<u32c const*>(in.data()), t.size(), out, d);
            mc::traces++;
            auto id = mc::hex(t.substr(0, 8)) + " into " + std::to_string(d) + " bytes";
            if (r != (d >= L ? int(L) : -1))
                mc::violation("u32u8_convert-result", "u32u8_convert of " + id + " = " + std::to_string(r) + " expected " + std::to_string(d >= L ? int(L) : -1));
            if (d >= L && memcmp(out, want.data(), L) != 0)
                mc::violation("u32u8_convert-bytes", "u32u8_convert of " + id + " wrote " + mc::hex(std::string(out, L)) + " expected " + mc::hex(want));
            if (side)
                for (int k = 0; k < 8; ++k)
                    if (out[-1 - k] != 0x5A || out[d + size_t(k)] != 0x5A)
                        mc::violation("u32u8_convert-outside", "u32u8_convert of " + id + " wrote outside the buffer");
            if (d < L)
            {
                // what has been written is a prefix of the conversion
                size_t k = 0;
                while (k < d && out[k] == want[k])
                    ++k;
                size_t fit = *std::prev(std::upper_bound(ends.begin(), ends.end(), d));
                if (k < fit)
                    mc::violation("u32u8_convert-prefix", "u32u8_convert of " + id + " left " + mc::hex(std::string(out, d)) + " expected to begin with " + mc::hex(want.substr(0, fit)));
            }
            else
                for (size_t k = L; k < d; ++k)
                    if (out[k] != 0x5A)
                        mc::violation("u32u8_convert-beyond", "u32u8_convert of " + id + " wrote beyond the result");
        }
    }
}

static void feed(H h, std::string_view b, std::u32string& out, std::string const& id)
{
    for (char c: b)
    {
        auto* o = reinterpret_cast<u32c*>(gOut.atEnd(4));
        *o = 0xDEADBEEF;
        int r = c_run(h, c, o);
        mc::traces++;
        if (r == 1)
            out += char32_t(*o);
        else if (r != 0 || *o != 0xDEADBEEF)
            mc::violation("stream-untouched", "u8u32_stream_convert_run returned " + std::to_string(r) + " and output " + mc::hexcp(char32_t(*o)) + " in " + id);
    }
}
static void stream(std::string_view b)
{
    mc::states++;
    mc::transitions += b.size();
    auto want = uref::decode(b);
    mc::cur("u8u32_stream", b.data(), b.size(), 1);
    std::u32string got;
    H h = c_create();
    feed(h, b, got, mc::hex(b));
    c_destroy(&h);
    if (h != nullptr)
        mc::violation("stream-destroy", "handle is not NULL after u8u32_stream_convert_destroy");
    if (got != want)
        mc::violation("stream", "streaming " + mc::hex(b) + " gives " + mc::hex(got) + " expected " + mc::hex(want));
    decoder<char> d;
    std::u32string cpp;
    for (char c: b)
        if (auto r = d(uint8_t(c)))
            cpp += *r;
    if (cpp != got)
        mc::violation("stream-cpp", "streaming " + mc::hex(b) + " gives " + mc::hex(got) + " but decoder<char> " + mc::hex(cpp));
    // the long-lived converter recovers at the next complete character
    std::u32string g2;
    feed(hot, b, g2, mc::hex(b));
    feed(hot, "\xF0\x9F\x91\xA8z", g2, mc::hex(b));
    if (g2 != want + U"\U0001F468z")
        mc::violation("stream-hot", "long-lived converter: streaming " + mc::hex(b) + " and a complete character gives " + mc::hex(g2) + " expected " + mc::hex(want + U"\U0001F468z"));
    // bulk functions on the same bytes
    auto in = g8.put(b);
    auto u32 = convert_to<char32_t>(std::string_view(in));
    mc::cur("u8_gc(malformed)", in.data(), in.size(), 1);
    expect("u8_gc_count-malformed", c_gc_count8(in.data(), in.size()), c_gc_count(reinterpret_cast<u32c const*>(u32.data()), u32.size()), mc::hex(b));
    for (int m: { c_mod(), c_nonmod() })
        expect("u8_gc_width-malformed", c_gc_width8(in.data(), in.size(), m), c_gc_width(reinterpret_cast<u32c const*>(u32.data()), u32.size(), m), mc::hex(b));
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    hot = c_create();
    uint64_t item = 0;
    std::vector<char32_t> const A { U'a', 0x4E00, 0x0301, 0x0903, 0xFE0F, 0xFE0E, 0x2764, 0x1F600, 0x1F468, 0x200D, 0x1F3FB, 0x1F1E6, 0x0915, 0x094D, 0x1100, 0x1161,
                                    0xAC00, 0x00AD, 0x0600, U'\n', U'\r', 0, 0x20E3, U'1' };
    mc::sequences(int(A.size()), 0, mc::opt.thorough ? 5 : 4, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        char32_t b[8];
        for (size_t i = 0; i < s.size(); ++i)
            b[i] = A[size_t(s[i])];
        counts(std::u32string_view(b, s.size()));
    });
    for (char32_t c = 0; c < 0x110400; ++c)
    {
        if (!mc::mine(c) || mc::enough())
            continue;
        char32_t t[] = { c, 0x0301, c, U'a', c, 0xFE0F, U'a' };
        counts(std::u32string_view(t, 1));
        counts(std::u32string_view(t, 2));
        counts(std::u32string_view(t, 7));
        char32_t v[] = { U'a', c, U'b' };
        conversion(std::u32string_view(v, 3));
        if (mc::isScalar(c))
        {
            auto b = mc::utf8(std::u32string_view(v, 3));
            stream(b);
            for (size_t k = 1; k + 2 < b.size(); ++k) // truncated after k of its bytes
                stream(b.substr(0, 1 + k) + "\xC3\xA9");
        }
        bool valid = c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF);
        if (c_valid(c) != int(valid))
            mc::violation("u32_is_valid_codepoint", "u32_is_valid_codepoint(" + mc::hexcp(c) + ") is wrong");
    }
    for (u32c c: { 0x110000u, 0x1FFFFFu, 0x200000u, 0x7FFFFFFFu, 0x80000041u, 0xFFFFFFFFu })
    {
        char32_t t[] = { c, U'a', c };
        counts(std::u32string_view(t, 3));
        conversion(std::u32string_view(t, 3));
        if (c_valid(c))
            mc::violation("u32_is_valid_codepoint", "u32_is_valid_codepoint(" + mc::hexcp(c) + ") is wrong");
        expect("u32_unused_bit_cleared", c_cleared(c), c & 0x1FFFFF, mc::hexcp(c));
        expect("u32_unused_bit_mask", c_mask(c), c >> 21, mc::hexcp(c));
    }
    // empty input without a buffer
    mc::cur("empty", "", 0, 1);
    expect("u32_gc_count-null", c_gc_count(nullptr, 0), 0, "NULL, 0");
    expect("u8_gc_count-null", c_gc_count8(nullptr, 0), 0, "NULL, 0");
    for (int m: { c_mod(), c_nonmod() })
    {
        expect("u32_gc_width-null", c_gc_width(nullptr, 0, m), 0, "NULL, 0");
        expect("u8_gc_width-null", c_gc_width8(nullptr, 0, m), 0, "NULL, 0");
    }
    expect("u32u8_convert-null", c_convert(nullptr, 0, nullptr, 0), 0, "NULL, 0");
    std::vector<char32_t> const B { 0, U'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD800, 0x110000 };
    mc::sequences(int(B.size()), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        char32_t b[8];
        for (size_t i = 0; i < s.size(); ++i)
            b[i] = B[size_t(s[i])];
        conversion(std::u32string_view(b, s.size()));
    });
    unsigned char const C[] = { 'a', 0x80, 0x9F, 0xA0, 0xBF, 0xC1, 0xC3, 0xE0, 0xE1, 0xED, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF, 0 };
    mc::sequences(int(std::size(C)), 0, mc::opt.thorough ? 6 : 5, [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        char b[8];
        for (size_t i = 0; i < s.size(); ++i)
            b[i] = char(C[s[i]]);
        stream(std::string_view(b, s.size()));
    });
    // two converters used alternately
    for (std::string x: { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "a", "\xE2\x82" })
        for (std::string y: { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "b", "\xFF" })
            for (unsigned m = 0; m < 256; ++m)
            {
                if (!mc::mine(item++))
                    continue;
                H a = c_create(), b = c_create();
                std::u32string ga, gb;
                size_t i = 0, j = 0;
                for (int k = 0; k < 8; ++k)
                    if (m >> k & 1)
                    {
                        if (i < x.size())
                            feed(a, std::string_view(x).substr(i++, 1), ga, "alternating");
                    }
                    else if (j < y.size())
                        feed(b, std::string_view(y).substr(j++, 1), gb, "alternating");
                feed(a, std::string_view(x).substr(i), ga, "alternating");
                feed(b, std::string_view(y).substr(j), gb, "alternating");
                c_destroy(&b);
                feed(a, "q", ga, "alternating");
                c_destroy(&a);
                if (ga != uref::decode(x + "q") || gb != uref::decode(y))
                    mc::violation("stream-two", "two converters fed alternately influence each other");
            }
    // long texts
    for (auto p: { U"a", U"\u0301", U"a\u0301", U"\u4e00", U"\U0001F468\u200d", U"\U0001F1E6", U"\u0915\u094d" })
        for (int n: { 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 32767, 32769, 65535, 65536, 65537, 70000 })
        {
            if (!mc::mine(item++))
                continue;
            std::u32string t = U"e";
            for (int i = 0; i < n; ++i)
                t += p;
            counts(t);
            conversion(t);
            if (n < 600)
                stream(mc::utf8(t));
        }
    c_destroy(&hot);
    mc::sample("u32_gc_width(U+0061 U+4E00, modifiable) = " + std::to_string(c_gc_width(reinterpret_cast<u32c const*>(U"a\u4e00"), 2, c_mod())));
    return mc::finish();
}
