// T01: what the explorer (t01.cpp) and the instrumented uses of the library (t01_uses.cpp) share.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace t01
{
/// A use of the library: an object (or a series of independent calls) on one text, taken step by step.
/// Everything it found out is in the log.
struct Use
{
    virtual ~Use() = default;
    virtual bool step() = 0; // false: there was nothing left to do
    std::string log;
};
/// Both forms are kept in blocks of exactly their size.
struct Text
{
    std::u32string_view u32;
    std::string_view u8; // its UTF-8 form (with malformed pieces where u32 has U+FFFD)
    Text() { set({}, {}); }
    Text(std::u32string_view a, std::string_view b) { set(a, b); }
    void set(std::u32string_view a, std::string_view b)
    {
        m32.reset(static_cast<char*>(malloc(a.size() * 4)), free);
        m8.reset(static_cast<char*>(malloc(b.size())), free);
        if (!a.empty())
            memcpy(m32.get(), a.data(), a.size() * 4);
        if (!b.empty())
            memcpy(m8.get(), b.data(), b.size());
        u32 = { reinterpret_cast<char32_t*>(m32.get()), a.size() };
        u8 = { m8.get(), b.size() };
    }

  private:
    std::shared_ptr<char> m32, m8;
};
inline Text text(std::vector<std::string> const& pieces)
{
    std::u32string u32;
    std::string u8;
    for (auto const& p: pieces)
    {
        u8 += p;
        size_t i = 0;
        while (i < p.size())
        {
            unsigned const b = uint8_t(p[i]);
            size_t const n = b < 0x80 ? 1 : b >= 0xC2 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF5 ? 4 : 0;
            bool ok = n && i + n <= p.size();
            for (size_t k = 1; ok && k < n; ++k)
                ok = (uint8_t(p[i + k]) & 0xC0) == 0x80;
            if (!ok)
            {
                u32 += U'\uFFFD';
                ++i;
                continue;
            }
            char32_t c = n == 1 ? b : b & (0x7F >> n);
            for (size_t k = 1; k < n; ++k)
                c = c << 6 | (uint8_t(p[i + k]) & 0x3F);
            u32 += c;
            i += n;
        }
    }
    return Text(u32, u8);
}
int kinds();
char const* kindName(int kind);
/// How many callbacks a whole run of the kind makes while a library function is active (0: none).
bool hasCallbacks(int kind);
Use* create(int kind, Text const& text);
/// Called by the uses from inside a callback of the library.
void hook();
} // namespace t01
