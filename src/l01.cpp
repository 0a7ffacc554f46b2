// L01: the work done on a text grows no faster than its length (times a logarithm).
// Library and uses are compiled with -fsanitize-coverage=trace-pc; the work of a run is the number of basic blocks it executes,
// plus what memcpy/memmove/memset/memcmp/memchr touch and what it allocates.  No clock is involved.
#include "mc.hpp"
#include "t01.hpp"
#include <cstdlib>
#include <new>
using t01::Text;
using t01::Use;
void t01::hook() {}

static uint64_t work, allocated, live, peak;

extern "C" void __sanitizer_cov_trace_pc() { ++work; }
extern "C" {
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
void* __real_memchr(void const*, int, size_t);
size_t __real_strlen(char const*);
void* __wrap_memcpy(void* a, void const* b, size_t n)
{
    work += n / 8 + 1;
    return __real_memcpy(a, b, n);
}
void* __wrap_memmove(void* a, void const* b, size_t n)
{
    work += n / 8 + 1;
    return __real_memmove(a, b, n);
}
void* __wrap_memset(void* a, int b, size_t n)
{
    work += n / 8 + 1;
    return __real_memset(a, b, n);
}
int __wrap_memcmp(void const* a, void const* b, size_t n)
{
    work += n / 8 + 1;
    return __real_memcmp(a, b, n);
}
void* __wrap_memchr(void const* a, int c, size_t n)
{
    work += n / 8 + 1;
    return __real_memchr(a, c, n);
}
size_t __wrap_strlen(char const* a)
{
    size_t const n = __real_strlen(a);
    work += n / 8 + 1;
    return n;
}
}
static void* get(size_t n)
{
    auto* p = static_cast<size_t*>(malloc(n + 16));
    if (!p)
        abort();
    p[0] = n;
    work += 20 + n / 64;
    allocated += n;
    live += n;
    peak = std::max(peak, live);
    return p + 2;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n); }
void operator delete(void* p) noexcept
{
    if (!p)
        return;
    auto* q = static_cast<size_t*>(p) - 2;
    live -= q[0];
    free(q);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

struct Cost
{
    uint64_t work = 0, memory = 0, steps = 0;
};
static Cost run(int kind, Text const& t)
{
    Cost c;
    uint64_t const l0 = live;
    peak = live;
    uint64_t const w0 = work;
    Use* u = t01::create(kind, t);
    while (u->step())
        ++c.steps;
    c.memory = peak - l0;
    delete u;
    c.work = work - w0;
    return c;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int const K = t01::kinds();
    std::vector<std::string> const pieces {
        "a", "Z", "1", " ", "'", "\"", "\t", "\n", "\xC3\x9F", "\xCC\x81", "\xCC\xA7", "\xD7\x90", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE0\xA4\xBE", "\xE1\x84\x80", "\xE1\x85\xA1", "\xE1\x86\xA8", "\xEA\xB0\x80",
        "\xE2\x80\x8D", "\xEF\xB8\x8E", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xE3\x81\x82", "\xF0\x9F\x98\x80", "\xF0\x9F\x87\xA6", "\xF0\x9F\x8F\xBB", "\xF0\x9F\x8F\xB4", "\xF3\xA0\x81\xA7", "\xF3\xA0\x81\xBF", "\xE2\x83\xA3",
        "\xD8\x80", "\xFF", "\xC3", "\xE4\xB8", "\xC2\x85", "\xEF\xAC\x81", "\xEF\xB7\xBA", "\xE0\xBD\xB3", "\xC4\xB0", "\xD9\x8E", "\xE3\x82\x99",
    };
    size_t const n1 = mc::opt.thorough ? 1500 : 400, n2 = 4 * n1;
    // four times the text: linear work gives 4, n log n less than 5.2, quadratic work comes to 16
    double const factor = 6.5;
    uint64_t const slack = 20000;
    uint64_t item = 0;
    double worst = 0, worstMem = 0;
    std::string worstWhat;
    auto compare = [&](std::string const& name, Text const& a, Text const& b) {
        ++mc::states;
        for (int k = 0; k < K; ++k)
        {
            mc::cur(t01::kindName(k), a.u8.data(), std::min<size_t>(a.u8.size(), 60), 1, long(a.u32.size()));
            auto const x = run(k, a), y = run(k, b);
            mc::traces += 2;
            mc::transitions += x.steps + y.steps;
            double const r = double(y.work) / double(x.work + 1), rm = double(y.memory) / double(x.memory + 1);
            if (r > worst && y.work > slack)
            {
                worst = r;
                worstWhat = std::string(t01::kindName(k)) + " on " + name;
            }
            if (y.memory > slack)
                worstMem = std::max(worstMem, rm);
            if (double(y.work) > factor * double(x.work) + double(slack))
                mc::violation(std::string("work:") + t01::kindName(k), std::string(t01::kindName(k)) + " on " + name + ": " + std::to_string(x.work) + " steps for " + std::to_string(n1) + " pieces, " + std::to_string(y.work)
                                                                          + " for " + std::to_string(n2));
            // buffers that double their size may come to twice as much
            if (double(y.memory) > 2 * factor * double(x.memory) + double(slack))
                mc::violation(std::string("memory:") + t01::kindName(k), std::string(t01::kindName(k)) + " on " + name + ": at most " + std::to_string(x.memory) + " bytes for " + std::to_string(n1) + " pieces, "
                                                                            + std::to_string(y.memory) + " for " + std::to_string(n2));
        }
    };
    auto build = [&](size_t n, auto&& at) {
        std::vector<std::string> p;
        p.reserve(n);
        for (size_t i = 0; i < n; ++i)
            p.push_back(pieces[size_t(at(i))]);
        return t01::text(p);
    };
    int const P = int(pieces.size());
    int const keep[] { 0, 2, 3, 4, 9, 11, 12, 13, 15, 19, 21, 24, 25, 32 };
    for (int p = 0; p < P; ++p)
        for (int q = 0; q < P; ++q)
        {
            if (!mc::mine(item++) || mc::enough())
                continue;
            // alternating, and one behind the other
            auto alt = [&](size_t n) { return build(n, [&](size_t i) { return i % 2 ? q : p; }); };
            compare("(" + mc::hex(pieces[size_t(p)]) + " " + mc::hex(pieces[size_t(q)]) + ")*", alt(n1), alt(n2));
            if (p == q)
                continue;
            auto two = [&](size_t n) { return build(n, [&](size_t i) { return i < n / 2 ? p : q; }); };
            compare("(" + mc::hex(pieces[size_t(p)]) + ")* (" + mc::hex(pieces[size_t(q)]) + ")*", two(n1), two(n2));
            // one in front of many
            auto lead = [&](size_t n) { return build(n, [&](size_t i) { return i ? q : p; }); };
            compare(mc::hex(pieces[size_t(p)]) + " (" + mc::hex(pieces[size_t(q)]) + ")*", lead(n1), lead(n2));
        }
    // three that take turns, and three one behind the other
    for (auto a: keep)
        for (auto b: keep)
            for (auto c: keep)
            {
                if (a == b || b == c || a == c || !mc::mine(item++) || mc::enough())
                    continue;
                int const t[] { a, b, c };
                auto const name = mc::hex(pieces[size_t(a)]) + " " + mc::hex(pieces[size_t(b)]) + " " + mc::hex(pieces[size_t(c)]);
                auto alt = [&](size_t n) { return build(n, [&](size_t i) { return t[i % 3]; }); };
                compare("(" + name + ")*", alt(n1), alt(n2));
                if (!mc::opt.thorough)
                    continue;
                auto three = [&](size_t n) { return build(n, [&](size_t i) { return t[std::min<size_t>(i * 3 / n, 2)]; }); };
                compare("each many times: " + name, three(n1), three(n2));
            }
    mc::extra["largest growth of work for four times the text, in hundredths"] = uint64_t(worst * 100);
    mc::extra["largest growth of memory, in hundredths"] = uint64_t(worstMem * 100);
    mc::extra["kinds of use"] = uint64_t(K);
    mc::sample("largest growth: " + worstWhat + " x" + std::to_string(worst));
    return mc::finish();
}
