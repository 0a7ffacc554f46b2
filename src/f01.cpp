// F01: memory runs out at any allocation of any use: std::bad_alloc (where declared noexcept: std::terminate) or the right result; nothing is lost,
// nothing else is affected, objects can be reset, given a new value and destroyed.
// usage: f01 [--shard i/n] ...
#include "mc.hpp"
#include "t01.hpp"
#include <csetjmp>
#include <exception>
#include <new>
#include <libunicode/normalization.h>
extern "C" char const* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:max_malloc_fill_size=4096:malloc_fill_byte=90:allocator_may_return_null=1:quarantine_size_mb=8"; }
extern "C" char const* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }
using namespace unicode;
using t01::Text;
using t01::Use;
void t01::hook() {}

// ------------------------------------------------------------------ the allocator
static long live = 0;       // blocks in use
static long countdown = 0;  // the allocation that fails; 0: none
static uint64_t failures = 0;
static uint64_t allocations = 0;
static bool failing()
{
    ++allocations;
    if (countdown && --countdown == 0)
    {
        ++failures;
        return true;
    }
    return false;
}
extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);
    void* __wrap_malloc(size_t n)
    {
        if (failing())
            return nullptr;
        void* const p = __real_malloc(n);
        live += p != nullptr;
        return p;
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        if (failing())
            return nullptr;
        void* const p = __real_calloc(a, b);
        live += p != nullptr;
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        if (failing())
            return nullptr;
        void* const p = __real_realloc(q, n);
        live += q == nullptr && p != nullptr;
        return p;
    }
    void __wrap_free(void* p)
    {
        live -= p != nullptr;
        __real_free(p);
    }
}
static void* take(size_t n)
{
    void* const p = __real_malloc(n ? n : 1);
    if (!p)
        abort();
    ++live;
    return p;
}
static void give(void* p) noexcept
{
    live -= p != nullptr;
    __real_free(p);
}
void* operator new(size_t n)
{
    if (failing())
        throw std::bad_alloc();
    return take(n);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return failing() ? nullptr : take(n); }
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }

// ------------------------------------------------------------------ one run
static jmp_buf onTerminate;
static bool catching = false;
static void terminated()
{
    if (catching)
    {
        catching = false;
        longjmp(onTerminate, 1);
    }
    abort();
}
enum class End { complete, badAlloc, other, terminate };
static char const* const endName[] = { "completed", "std::bad_alloc", "another exception", "std::terminate" };
struct Run
{
    End end = End::complete;
    bool failed = false;   // an allocation has failed
    bool right = true;     // the log is the reference (or, if it did not complete, the beginning of it)
    bool restored = true;  // as many blocks in use as before
};
/// A whole use with the k-th allocation failing.
static Run run(int kind, Text const& t, long k, std::string const* ref, std::string* log)
{
    Run r;
    Use* volatile u = nullptr;
    long const before = live;
    uint64_t const f0 = failures;
    catching = true;
    if (setjmp(onTerminate) == 0)
    {
        try
        {
            countdown = k;
            u = t01::create(kind, t);
            while (const_cast<Use*>(u)->step()) {}
        }
        catch (std::bad_alloc const&)
        {
            r.end = End::badAlloc;
        }
        catch (...)
        {
            r.end = End::other;
        }
    }
    else
        r.end = End::terminate;
    catching = false;
    countdown = 0;
    r.failed = failures != f0;
    if (r.end == End::terminate)
        return r; // nothing can be said about what is left
    Use* const v = const_cast<Use*>(u);
    if (v)
    {
        if (log)
            *log = v->log;
        if (ref)
            r.right = r.end == End::complete ? v->log == *ref : ref->compare(0, v->log.size(), v->log) == 0;
        delete v;
    }
    if (!log)
        r.restored = live == before;
    return r;
}
/// These are declared noexcept and need memory: they end the program.
static bool mayTerminate(int kind)
{
    std::string const n = t01::kindName(kind);
    return n == "utf8_grapheme_segmenter" || n == "script_segmenter" || n == "run_segmenter" || n == "widths";
}
static uint64_t ends[4] = {};
static uint64_t terminations[64] = {};
static uint64_t mostAllocations = 0;
/// The next allocation to fail: in quick, of more than 160 the first 96, the last 32 and 32 between (a use that makes that many makes them in a loop).
static long after(long k, long total)
{
    if (mc::opt.thorough || total <= 160 || k < 96 || k >= total - 32)
        return k + 1;
    return std::min(k + (total - 128) / 32 + 1, total - 31);
}
static void uses(Text const& t)
{
    for (int kind = 0; kind < t01::kinds(); ++kind)
    {
        mc::cur(t01::kindName(kind), t.u8.data(), t.u8.size(), 1, 0, long(t.u32.size()));
        std::string ref;
        run(kind, t, 0, nullptr, &ref);
        run(kind, t, 0, nullptr, nullptr); // what is made once and kept is there now
        uint64_t const c0 = allocations;
        run(kind, t, 0, nullptr, nullptr);
        long const total = long(allocations - c0);
        mostAllocations = std::max(mostAllocations, uint64_t(total));
        int ended = 0;
        for (long k = 1;; k = after(k, total))
        {
            mc::cur(t01::kindName(kind), t.u8.data(), t.u8.size(), 1, k, long(t.u32.size()));
            auto const r = run(kind, t, k, &ref, nullptr);
            ++mc::traces;
            auto where = [&] {
                return std::string(t01::kindName(kind)) + " on " + mc::hex(t.u8) + " / " + mc::hex(t.u32) + ", allocation " + std::to_string(k) + " fails: ";
            };
            std::string const key = t01::kindName(kind);
            if (r.failed)
                ++ends[int(r.end)];
            if (r.end == End::other)
                mc::violation("other-exception:" + key, where() + "an exception other than std::bad_alloc");
            if (r.end == End::terminate)
            {
                ++terminations[kind];
                if (!mayTerminate(kind))
                    mc::violation("terminates:" + key, where() + "the program ends though no called function is noexcept");
                if (++ended == 20)
                    break; // the blocks of these runs are lost
            }
            if (!r.right)
                mc::violation("wrong-result:" + key, where() + "gives wrong results (" + endName[int(r.end)] + ")");
            if (!r.restored)
                mc::violation("leak:" + key, where() + "leaves memory behind (" + endName[int(r.end)] + ")");
            if (!r.failed)
            {
                if (r.end != End::complete)
                    mc::violation("exception:" + key, where() + "throws though no allocation failed");
                break; // fewer allocations than that
            }
            // nothing else is affected
            auto const again = run(kind, t, 0, &ref, nullptr);
            ++mc::traces;
            if (!again.right || again.end != End::complete)
                mc::violation("later:" + key, where() + "afterwards the same use on a new object gives another result");
        }
        ++mc::states;
    }
}

// ------------------------------------------------------------------ objects that stay
template <typename N, typename V> struct Norm;
static std::u32string all(normalizer& n, std::u32string_view t)
{
    std::u32string r;
    for (auto c: t)
        r += n.feed(c);
    r += n.flush();
    return r;
}
static std::string all(utf8_normalizer& n, std::string_view t)
{
    std::string r;
    for (size_t i = 0; i < t.size(); i += 3)
        r += n.feed(t.substr(i, 3));
    r += n.flush();
    return r;
}
/// Memory runs out somewhere in the text; the object is reset (or assigned to) and goes on with another text.
template <typename N, typename V> static void resets(char const* name, Normalization_Form form, V first, std::vector<V> const& second)
{
    std::vector<decltype(all(std::declval<N&>(), second[0]))> refs;
    for (auto& s: second)
    {
        N n(form);
        refs.push_back(all(n, s));
    }
    for (int how = 0; how < 5; ++how)
        for (size_t s = 0; s < second.size(); ++s)
            for (long k = 1, total = 0;; k = after(k, total))
            {
                if (k == 1) // an undisturbed run, to count
                {
                    uint64_t const c0 = allocations;
                    N n(form);
                    if constexpr (sizeof(first[0]) == 4)
                        for (auto c: first)
                            n.feed(c);
                    else
                        n.feed(first);
                    n.flush();
                    total = long(allocations - c0);
                }
                mc::cur(name, first.data(), first.size(), sizeof(first[0]), k, how);
                long const before = live;
                bool failed = false, wrong = false;
                {
                    N n(form), other(form);
                    decltype(all(n, first)) out;
                    out.reserve(256); // the harness's own string
                    N saved(form);
                    if (how == 3 || how == 4)
                    {
                        // a copy in the middle of the text fails
                        all(other, second[s]);
                        if constexpr (sizeof(first[0]) == 4)
                            for (auto c: first)
                                n.feed(c);
                        else
                            n.feed(first);
                    }
                    uint64_t const f0 = failures;
                    try
                    {
                        countdown = k;
                        if (how < 3)
                        {
                            if constexpr (sizeof(first[0]) == 4)
                                for (auto c: first)
                                    n.feed(c);
                            else
                                n.feed(first);
                            n.flush();
                        }
                        else if (how == 3)
                            other = n;
                        else
                            N copy(n);
                    }
                    catch (std::bad_alloc const&)
                    {
                    }
                    countdown = 0;
                    failed = failures != f0;
                    if (how == 0)
                        n.reset();
                    else if (how == 1)
                        n = N(form);
                    else if (how == 2)
                        n = saved;
                    else
                    {
                        // the source of the copy goes on as if nothing had happened; the target can be reset
                        N fresh(form);
                        if constexpr (sizeof(first[0]) == 4)
                            for (auto c: first)
                                fresh.feed(c);
                        else
                            fresh.feed(first);
                        wrong = all(n, second[s]) != all(fresh, second[s]);
                        other.reset();
                        wrong = wrong || all(other, second[s]) != refs[s];
                    }
                    if (how < 3)
                        wrong = all(n, second[s]) != refs[s];
                }
                ++mc::traces;
                if (wrong)
                    mc::violation(std::string("reset:") + name,
                                  std::string(name) + " on " + mc::hex(first) + ", allocation " + std::to_string(k) + " fails, then "
                                      + (how == 0 ? "reset()" : how == 1 ? "a new object is moved in" : how == 2 ? "another object is assigned" : how == 3 ? "(in a copy assignment) on" : "(in a copy construction) on")
                                      + ", then " + mc::hex(second[s]) + ": wrong result");
                if (live != before)
                    mc::violation(std::string("leak:") + name, std::string(name) + " on " + mc::hex(first) + ", allocation " + std::to_string(k) + " fails: leaves memory behind");
                if (!failed)
                    break;
            }
    ++mc::states;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::set_terminate(terminated);
    uint64_t item = 0;
    std::vector<std::string> const pieces {
        "a", "Z", "1", " ", "\t", "\xC3\x9F", "\xCC\x81", "\xCC\xA7", "\xD7\x90", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE1\x84\x80", "\xE1\x85\xA1", "\xEA\xB0\x80",
        "\xE2\x80\x8D", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xF0\x9F\x87\xA6", "\xD8\x8C", "\xFF", "\xC3", "\xE4\xB8", "\xEF\xAC\x83", "\xC7\x84",
        "\xEF\xB7\xBA", "\xF0\x9D\x85\xA0", "\xC4\xB0",
    };
    auto make = [&](std::vector<int> const& s) {
        std::vector<std::string> p;
        for (int i: s)
            p.push_back(pieces[size_t(i)]);
        return t01::text(p);
    };
    mc::sequences(int(pieces.size()), 0, mc::opt.thorough ? 3 : 2, [&](std::vector<int> const& s) {
        if (mc::mine(item++) && !mc::enough())
            uses(make(s));
    });
    // longer texts: buffers grow several times
    for (size_t n: { 3u, 4u, 5u, 8u, 9u, 16u, 17u, 33u, 65u })
        for (size_t p = 0; p < pieces.size(); ++p)
            for (size_t q = 0; q < pieces.size(); ++q)
            {
                if (!mc::mine(item++) || mc::enough() || (!mc::opt.thorough && ((p * 7 + q * 3 + n) % (n > 16 ? 11 : 5))))
                    continue;
                std::vector<int> v;
                for (size_t i = 0; i < n; ++i)
                    v.push_back(int(i % 2 ? q : p));
                uses(make(v));
            }
    // objects that are used again
    Normalization_Form const forms[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
    std::vector<Text> const seconds { make({ 0, 6 }), make({ 26, 6, 7 }), make({ 12, 21, 0 }), make({ 11, 12, 25, 0, 7, 6, 6, 7, 6 }) };
    std::vector<std::u32string_view> s32;
    std::vector<std::string_view> s8;
    for (auto& s: seconds)
    {
        s32.push_back(s.u32);
        s8.push_back(s.u8);
    }
    auto both = [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        auto const t = make(s);
        for (auto f: forms)
        {
            resets<normalizer>("normalizer", f, t.u32, s32);
            resets<utf8_normalizer>("utf8_normalizer", f, t.u8, s8);
        }
    };
    mc::sequences(int(pieces.size()), 1, 2, both);
    for (size_t n: { 5u, 17u, 40u })
        for (size_t p = 0; p < pieces.size(); ++p)
            for (size_t q = 0; q < pieces.size(); ++q)
            {
                if (!mc::opt.thorough && (p * 7 + q * 3 + n) % 5)
                {
                    ++item;
                    continue;
                }
                std::vector<int> v;
                for (size_t i = 0; i < n; ++i)
                    v.push_back(int(i % 2 ? q : p));
                both(v);
            }
    mc::transitions = failures;
    mc::extra["allocations that failed"] = failures;
    mc::extra["most allocations of a use"] = mostAllocations;
    for (int e = 0; e < 4; ++e)
        mc::extra[std::string("failing runs: ") + endName[e]] = ends[e];
    for (int k = 0; k < t01::kinds(); ++k)
        if (terminations[k])
            mc::extra[std::string("terminates (noexcept): ") + t01::kindName(k)] = terminations[k];
    return mc::finish();
}
