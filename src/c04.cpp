// C04: the incremental UTF-8 decoder against a reference DFA, to closure; plus every scalar value
// in every context, and the whole-character helpers on guard pages.
#include <libunicode/utf8.h>

#include "mc.hpp"

using namespace unicode;

// Reference decoder state. lax > 0: inside an ill-formed multi-byte form (overlong, surrogate,
// beyond U+10FFFF, C0/C1/F5..F7) whose handling is left open for `lax` more continuation bytes.
struct Ref
{
    uint8_t need = 0, have = 0; // pending well-formed prefix
    uint8_t lax = 0;
    char32_t value = 0;
    uint8_t lead = 0;
    auto tie() const { return std::tuple(need, have, lax, value, lead); }
};
enum class Out { Invalid, Incomplete, Success };
struct Verdict
{
    bool invalid = false, incomplete = false, success = false; // allowed outcomes
    bool anyValue = false;
    char32_t value = 0;
};

static Ref start(uint8_t b, Verdict& v)
{
    Ref r;
    r.lead = b;
    if (b < 0x80)
    {
        v.success = true;
        v.value = b;
        return {};
    }
    if (b >= 0xC2 && b <= 0xF4)
    {
        v.incomplete = true;
        r.need = b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        r.have = 1;
        r.value = b < 0xE0 ? b & 0x1F : b < 0xF0 ? b & 0x0F : b & 0x07;
        return r;
    }
    if (b == 0xC0 || b == 0xC1 || (b >= 0xF5 && b <= 0xF7))
    {
        v.incomplete = v.invalid = true;
        r.lax = b < 0xC2 ? 1 : 3;
        r.lead = 0;
        return r;
    }
    v.invalid = true;
    return {};
}

static Ref step(Ref const& s, uint8_t b, Verdict& v)
{
    bool const cont = (b & 0xC0) == 0x80;
    if (s.lax)
    {
        if (cont)
        {
            v.invalid = v.incomplete = true; // reported at once or when complete, never as a character
            Ref r;
            r.lax = uint8_t(s.lax - 1);
            if (r.lax == 0)
                v.incomplete = false;
            return r;
        }
        Verdict w;
        Ref r = start(b, w);
        v = w;
        v.invalid = true;
        return r;
    }
    if (!s.need)
        return start(b, v);
    if (cont)
    {
        Ref r = s;
        if (s.have == 1)
        {
            bool bad = (s.lead == 0xE0 && b < 0xA0) || (s.lead == 0xED && b > 0x9F) || (s.lead == 0xF0 && b < 0x90) || (s.lead == 0xF4 && b > 0x8F);
            if (bad)
            {
                v.invalid = v.incomplete = true;
                Ref q;
                q.lax = uint8_t(s.need - 2);
                return q;
            }
        }
        r.value = (s.value << 6) | (b & 0x3F);
        r.have++;
        if (r.have == r.need)
        {
            v.success = true;
            v.value = r.value;
            return {};
        }
        v.incomplete = true;
        return r;
    }
    // the pending character is broken
    Verdict w;
    Ref r = start(b, w);
    v.invalid = true;
    if (b < 0x80)
        r = {}; // the ASCII byte that breaks a pending character may be part of the invalid report
    return r;
}

static bool allowed(Verdict const& v, ConvertResult const& r)
{
    if (std::holds_alternative<Invalid>(r))
        return v.invalid;
    if (std::holds_alternative<Incomplete>(r))
        return v.incomplete;
    return v.success && (v.anyValue || std::get<Success>(r).value == v.value);
}
static std::string show(ConvertResult const& r)
{
    if (std::holds_alternative<Invalid>(r))
        return "Invalid";
    if (std::holds_alternative<Incomplete>(r))
        return "Incomplete";
    return "Success(" + mc::hexcp(std::get<Success>(r).value) + ")";
}
static std::string show(Verdict const& v)
{
    std::string s;
    if (v.invalid) s += "Invalid ";
    if (v.incomplete) s += "Incomplete ";
    if (v.success) s += v.anyValue ? "Success(any) " : "Success(" + mc::hexcp(v.value) + ") ";
    return s;
}
static std::string cls(uint8_t b)
{
    return b < 0x80 ? "ascii" : b < 0xC0 ? "cont" : b < 0xC2 ? "badlead2" : b < 0xE0 ? "lead2" : b < 0xF0 ? "lead3" : b < 0xF5 ? "lead4" : b < 0xF8 ? "badlead4" : "never";
}

struct Node
{
    utf8_decoder_state impl;
    Ref ref;
    int parent;
    uint8_t via;
};
static std::vector<Node> nodes;
static std::string path(int n)
{
    std::string s;
    for (; n > 0; n = nodes[size_t(n)].parent)
        s.insert(s.begin(), char(nodes[size_t(n)].via));
    return s;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::vector<uint8_t> alpha;
    if (mc::opt.thorough)
        for (int i = 0; i < 256; ++i)
        {
            if (i < 0x80 && i % 0x20 != 1 && i != 0 && i != 0x7F) continue;
            if (i >= 0x80 && i < 0xC0 && i % 8 != 0 && i % 8 != 7 && i % 8 != 1) continue;
            alpha.push_back(uint8_t(i));
        }
    else
        alpha = { 0x41, 0x00, 0x0A, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xE2, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
    auto key = [](utf8_decoder_state s, Ref const& r) {
        __builtin_clear_padding(&s);
        std::string k(reinterpret_cast<char const*>(&s), sizeof s);
        k += char(r.need); k += char(r.have); k += char(r.lax); k += char(r.lead);
        k.append(reinterpret_cast<char const*>(&r.value), 4);
        return k;
    };
    std::unordered_set<std::string> seen;
    nodes.push_back({ {}, {}, -1, 0 });
    seen.insert(key(nodes[0].impl, nodes[0].ref));
    size_t const Cap = mc::opt.thorough ? 3000000 : 600000;
    auto fail = [&](std::string const& bytes, uint8_t b, ConvertResult const& r, Verdict const& v, Ref const& ref) {
        mc::violation("step:" + std::to_string(ref.need) + "/" + std::to_string(ref.have) + (ref.lax ? "lax" : "") + "+" + cls(b),
                      "bytes " + mc::hex(bytes) + (bytes.empty() ? "" : " ") + mc::hex(&b, 1, 1) + ": last byte gives " + show(r) + ", expected " + show(v));
    };
    if (mc::opt.shard == 0)
    {
        for (size_t i = 0; i < nodes.size(); ++i)
        {
            if (nodes.size() > Cap)
            {
                mc::capped = true;
                mc::note("state cap");
                break;
            }
            for (unsigned x = 0; x < 256; ++x)
            {
                auto n = nodes[i];
                Verdict v;
                mc::cur("from_utf8(state,byte)", &n.impl, sizeof n.impl, 1, long(x));
                auto r = from_utf8(n.impl, uint8_t(x));
                ++mc::transitions;
                auto ref = step(n.ref, uint8_t(x), v);
                if (!allowed(v, r))
                {
                    fail(path(int(i)), uint8_t(x), r, v, n.ref);
                    if (mc::enough())
                        return mc::finish();
                    continue;
                }
                bool inAlpha = std::find(alpha.begin(), alpha.end(), uint8_t(x)) != alpha.end();
                if (!inAlpha)
                {
                    // one more step with every alphabet byte
                    for (auto y: alpha)
                    {
                        auto s = n.impl;
                        Verdict w;
                        auto r2 = from_utf8(s, y);
                        ++mc::transitions;
                        step(ref, y, w);
                        if (!allowed(w, r2))
                            fail(path(int(i)) + char(x), y, r2, w, ref);
                    }
                    continue;
                }
                auto k = key(n.impl, ref);
                if (seen.insert(k).second)
                    nodes.push_back({ n.impl, ref, int(i), uint8_t(x) });
            }
        }
        mc::states = nodes.size();
        for (size_t i = 0; i < nodes.size() && mc::samples.size() < 3; i += nodes.size() / 3 + 1)
            mc::sample(mc::hex(path(int(i))));
    }

    // Every scalar value after each of a set of histories, followed by a second character.
    std::vector<std::string> contexts { "", "A", "\xC3", "\xC3\xA9", "\xE2", "\xE2\x82", "\xE2\x82\xAC", "\xF0\x9F\x98", "\xF0", "\xF4\x8F\xBF\xBF", "\x80", "\xFF", "\xED\xA0\x80",
                                        "\xC0\x80", "\xE2\x41", "\xF0\x9F\x0A", "\xC3\xC3", "\xE2\x82\xF0\x9F\x98\x80" };
    std::vector<char32_t> followers { U'z', 0xE9, 0x20AC, 0x1F600 };
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c >> 10) || !mc::isScalar(c))
            continue;
        std::string u;
        mc::utf8Append(u, c);
        for (size_t k = 0; k < contexts.size(); ++k)
        {
            utf8_decoder_state s;
            Ref ref;
            for (unsigned char b: contexts[k])
            {
                Verdict v;
                from_utf8(s, b);
                ref = step(ref, b, v);
            }
            std::string rest = u;
            mc::utf8Append(rest, followers[(c + k) % followers.size()]);
            mc::cur("from_utf8 scalar in context", u.data(), u.size(), 1, long(k), long(c));
            for (size_t i = 0; i < rest.size(); ++i)
            {
                Verdict v;
                auto prev = ref;
                auto b = uint8_t(rest[i]);
                // alternate the two incremental interfaces
                ConvertResult r = Incomplete {};
                if ((c ^ k) & 1)
                    r = from_utf8(s, b);
                else
                {
                    unsigned x = from_utf8i(s, b);
                    r = x == unsigned(-1) ? ConvertResult(Incomplete {}) : x == unsigned(-2) ? ConvertResult(Invalid {}) : ConvertResult(Success { char32_t(x) });
                }
                ref = step(ref, b, v);
                ++mc::transitions;
                if (!allowed(v, r))
                {
                    fail(contexts[k] + rest.substr(0, i), b, r, v, prev);
                    if (mc::enough())
                        return mc::finish();
                }
            }
            ++mc::traces;
        }
    }

    // Whole-character helper: exact result and length, never reading behind the character.
    mc::Guarded g(4096);
    for (uint32_t c = 0; c < 0x110000; ++c)
    {
        if (!mc::mine(c >> 10) || !mc::isScalar(c))
            continue;
        std::string u;
        mc::utf8Append(u, c);
        auto p = g.put(u);
        mc::cur("from_utf8(bytes,&size)", p.data(), p.size(), 1);
        size_t n = 99;
        auto r = from_utf8(p.data(), &n);
        auto r2 = from_utf8(reinterpret_cast<uint8_t const*>(p.data()), nullptr);
        if (!std::holds_alternative<Success>(r) || std::get<Success>(r).value != c || n != u.size() || !std::holds_alternative<Success>(r2)
            || std::get<Success>(r2).value != c)
            mc::violation("whole", mc::hexcp(c) + " from_utf8(bytes,&size) gives " + show(r) + " size " + std::to_string(n));
        ++mc::traces;
        if (u.size() > 1)
            for (size_t cut = 1; cut < u.size(); ++cut)
            {
                // truncated character in a NUL-terminated buffer
                std::string t = u.substr(0, cut) + '\0';
                auto q = g.put(t);
                mc::cur("from_utf8(bytes) truncated+NUL", q.data(), q.size(), 1);
                size_t m = 0;
                auto rt = from_utf8(q.data(), &m);
                if (!std::holds_alternative<Invalid>(rt))
                    mc::violation("whole-truncated", "truncated " + mc::hex(t) + " gives " + show(rt));
                ++mc::traces;
            }
    }
    return mc::finish();
}
