// D04: the table compressor on all small tables, several element/index types, block sizes and hash functions.
#include <stdexcept>
#include <string>
#include "mc.hpp"
using namespace std;
#include <libunicode/multistage_table_generator.h>

/// A value with padding whose unused bytes differ between equal values.
struct Padded
{
    uint8_t a = 0;
    uint8_t pad[3] = {};
    uint32_t b = 0;
    bool operator==(Padded const& o) const { return a == o.a && b == o.b; }
    bool operator!=(Padded const& o) const { return !(*this == o); }
};
struct PaddedHash
{
    size_t operator()(Padded const& p) const { return p.a * 31 + p.b; }
};
template <typename T> struct Collide // every value collides
{
    size_t operator()(T const&) const { return 7; }
};
template <typename T> struct Weak // few different values
{
    size_t operator()(T const& v) const { return std::hash<T>()(v) & 1; }
};
static uint64_t serial = 0;
template <typename T> T make(int v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return v % 2 ? "value number " + std::to_string(v) + " (long enough for the heap)" : std::to_string(v); // distinct objects
    else if constexpr (std::is_same_v<T, Padded>)
    {
        Padded p;
        p.a = uint8_t(v);
        p.b = uint32_t(v * 3);
        p.pad[0] = uint8_t(++serial);
        p.pad[2] = uint8_t(serial >> 8);
        return p;
    }
    else
        return T(v);
}
template <typename T> std::string str(std::vector<int> const& v)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < 60; ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + (v.size() > 60 ? "...(" + std::to_string(v.size()) + ")" : "");
}

template <typename T, typename Src, typename S1, typename S2, typename Hash, Src B, Src Max> void check(std::vector<int> const& in, char const* what)
{
    using Table = support::multistage_table<T, Src, S1, S2, B, Max>;
    std::vector<T> input;
    input.reserve(in.size());
    for (int v: in)
        input.push_back(make<T>(v));
    mc::cur(what, in.data(), in.size(), 4, long(B), long(Max));
    mc::states++;
    mc::traces++;
    Table t {};
    size_t bs = size_t(B), blocks = 0, values = 0;
    {
        std::set<std::vector<int>> ub;
        std::set<int> uv(in.begin(), in.end());
        for (size_t i = 0; i < in.size(); i += bs)
            ub.insert(std::vector<int>(in.begin() + long(i), in.begin() + long(i + bs)));
        blocks = ub.size();
        values = uv.size();
    }
    bool fits = blocks <= size_t(std::numeric_limits<S1>::max()) + 1 && values <= size_t(std::numeric_limits<S2>::max()) + 1;
    auto fail = [&](std::string const& k, std::string const& d) {
        mc::violation(k + ":" + what, std::string(what) + " block size " + std::to_string(bs) + " table [" + str<T>(in) + "]: " + d);
    };
    try
    {
        support::generate<T, Src, S1, S2, Hash, B, Max>(input.data(), input.size(), t, Hash {});
    }
    catch (std::exception const& e)
    {
        if (fits)
            fail("throws", std::string("throws ") + e.what());
        return;
    }
    // Reading: everything must stay inside the tables (checked with at()) before get() is used.
    if (t.stage1.size() != in.size() / bs)
        return fail("stage1", "stage 1 has " + std::to_string(t.stage1.size()) + " entries");
    for (size_t i = 0; i < in.size(); ++i)
    {
        size_t k2 = size_t(t.stage1[i / bs]) * bs + i % bs;
        if (k2 >= t.stage2.size() || size_t(t.stage2[k2]) >= t.stage3.size())
            return fail("dangling", "element " + std::to_string(i) + " refers outside the tables");
        if (!(t.get(Src(i)) == input[i]))
            return fail("element", "get(" + std::to_string(i) + ") is not the element of the input (" + std::to_string(in[i]) + ")");
        if (!(t.to_view().get(Src(i)) == input[i]) || !(t.to_view().unsafe_get(Src(i)) == input[i]))
            return fail("view", "the view's element " + std::to_string(i) + " is not the element of the input");
        mc::transitions += 3;
    }
    // beyond the table: the fallback
    auto v = t.to_view();
    for (uint64_t i: { uint64_t(Max) + 1, uint64_t(Max) + 2, uint64_t(Max) + bs, uint64_t(Max) * 2, uint64_t(std::numeric_limits<Src>::max()) })
    {
        if (in.empty() || i <= uint64_t(Max) || i > uint64_t(std::numeric_limits<Src>::max()) || uint64_t(Max) >= in.size())
            continue;
        if (!(v.get(Src(i)) == input[0]))
            return fail("fallback", "get(" + std::to_string(i) + ") is not the element at index 0");
        for (size_t f = 0; f < in.size() && f < 40; ++f)
            if (!(v.get(Src(i), Src(f)) == input[f]))
                return fail("fallback", "get(" + std::to_string(i) + ", " + std::to_string(f) + ") is not the element at the fallback index");
    }
    if (t.stage2.size() != blocks * bs)
        fail("dedup-blocks", std::to_string(t.stage2.size() / bs) + " blocks stored for " + std::to_string(blocks) + " distinct ones");
    if (t.stage3.size() != values)
        fail("dedup-values", std::to_string(t.stage3.size()) + " values stored for " + std::to_string(values) + " distinct ones");
}

/// all tables of n blocks over k values
template <typename T, typename Hash, uint32_t B, typename S1 = uint8_t, typename S2 = uint8_t> void all(int k, size_t maxLen, char const* what)
{
    uint64_t idx = 0;
    auto run = [&]<uint32_t L>() {
        if (L > maxLen)
            return;
        mc::sequences(k, int(L), int(L), [&](std::vector<int> const& s) {
            if (mc::mine(idx++) && !mc::enough())
                check<T, uint32_t, S1, S2, Hash, B, L - 1>(s, what);
        });
    };
    run.template operator()<B>();
    run.template operator()<B * 2>();
    run.template operator()<B * 3>();
    run.template operator()<B * 4>();
    run.template operator()<B * 5>();
    run.template operator()<B * 6>();
    run.template operator()<B * 8>();
    run.template operator()<B * 10>();
    run.template operator()<B * 12>();
}
template <typename T, typename Hash> void shapes(char const* what)
{
    bool th = mc::opt.thorough;
    all<T, Hash, 1>(2, th ? 12 : 10, what);
    all<T, Hash, 1>(4, th ? 8 : 6, what);
    all<T, Hash, 2>(2, th ? 20 : 16, what);
    all<T, Hash, 2>(3, th ? 12 : 10, what);
    all<T, Hash, 3>(2, th ? 18 : 15, what);
    all<T, Hash, 3>(3, th ? 12 : 9, what);
    all<T, Hash, 4>(2, th ? 20 : 16, what);
    all<T, Hash, 4>(3, 8, what);
}

/// tables with exactly `distinct` blocks/values around the limits of the index types
template <typename T, typename S1, typename S2, uint32_t B> void limits(char const* what)
{
    for (int distinct: { 254, 255, 256, 257, 258, 300, 511, 512, 513 })
        for (int repeat: { 0, 1, 255 })
        {
            // distinct blocks over few values (binary digits of the block number), each possibly repeated later
            std::vector<int> in;
            int total = distinct + repeat;
            for (int b = 0; b < total; ++b)
                for (uint32_t k = 0; k < B; ++k)
                    in.push_back(((b % distinct) >> k) & 1);
            auto n = in.size();
            if (B >= 10 && n <= 8192)
            {
                in.resize(8192);
                check<T, uint32_t, S1, S2, std::hash<T>, B == 16 ? 16 : B, 8191>(in, what);
            }
            // distinct values
            std::vector<int> v;
            for (int b = 0; b < total; ++b)
                v.push_back(b % distinct);
            while (v.size() % B)
                v.push_back(v.back());
            v.resize(1024, v.back());
            check<T, uint32_t, S1, S2, std::hash<T>, B, 1023>(v, what);
        }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv);
    shapes<uint8_t, std::hash<uint8_t>>("uint8_t elements");
    shapes<int, Collide<int>>("int elements, colliding hashes");
    shapes<std::string, std::hash<std::string>>("string elements");
    shapes<std::string, Weak<std::string>>("string elements, weak hash");
    shapes<Padded, PaddedHash>("elements with padding");
    if (mc::opt.shard == 0)
    {
        limits<int, uint8_t, uint16_t, 16>("limits, 8/16 bit indices");
        limits<int, uint16_t, uint8_t, 16>("limits, 16/8 bit indices");
        limits<std::string, uint8_t, uint8_t, 16>("limits, 8/8 bit indices");
        limits<int, uint8_t, uint16_t, 4>("limits, 8/16 bit indices, block size 4");
        limits<std::string, uint8_t, uint16_t, 1>("limits, 8/16 bit indices, block size 1");
        limits<std::string, uint16_t, uint8_t, 1>("limits, 16/8 bit indices, block size 1");
        // tables that fill the whole range of their index type
        for (int m: { 1, 2, 3, 7, 16, 200, 256 })
        {
            std::vector<int> in;
            for (int i = 0; i < 256; ++i)
                in.push_back(i % m);
            check<int, uint8_t, uint8_t, uint8_t, std::hash<int>, 16, 255>(in, "256 elements indexed by uint8_t");
            check<std::string, uint8_t, uint8_t, uint8_t, std::hash<std::string>, 1, 255>(in, "256 elements indexed by uint8_t, block size 1");
            check<int, uint8_t, uint8_t, uint8_t, std::hash<int>, 128, 255>(in, "256 elements indexed by uint8_t, block size 128");
            std::vector<int> big;
            for (int i = 0; i < 65536; ++i)
                big.push_back(i % 100 + (i / 256) % m * 100);
            check<int, uint16_t, uint16_t, uint16_t, std::hash<int>, 256, 65535>(big, "65536 elements indexed by uint16_t");
        }
        // The shape the library's own tables have: 4352 blocks of 256, at most 256 distinct ones.
        for (int m: { 1, 2, 100, 255, 256, 257 })
        {
            std::vector<int> in(0x110000);
            for (size_t i = 0; i < in.size(); ++i)
                in[i] = int((i >> 8) * 7 % size_t(m)) * 100 + int(i & 255) % 90;
            check<std::string, uint32_t, uint8_t, uint16_t, std::hash<std::string>, 256, 0x10FFFF>(in, "full Unicode range of strings");
            check<int, uint32_t, uint8_t, uint16_t, std::hash<int>, 256, 0x10FFFF>(in, "full Unicode range");
        }
        mc::sample("e.g. [0,1,0,1,1,1] with block size 2 stores 2 blocks");
    }
    return mc::finish();
}
