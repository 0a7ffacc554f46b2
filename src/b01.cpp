// B01: no call reads or writes outside its inputs and outputs, depends on memory nobody wrote, leaks, or has undefined behaviour.
// The same enumeration runs in three builds: "checked" (address and undefined-behaviour sanitizer, library assertions), and two whose
// fresh stack and heap memory is filled differently; everything the uses find out must be the same in all three.
// usage: b01 [--digests FILE] [OTHER...] [--shard i/n] ...   OTHER: the executables of the other builds
#include "mc.hpp"
#include "t01.hpp"
#include "texts.hpp"
#include <cstdlib>
#include <new>
#include <sys/wait.h>
#ifndef B01_FILL
extern "C" char const* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=90:allocator_may_return_null=1"; }
extern "C" char const* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }
static long live = 0;
#else
static long live = 0;
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    memset(p, B01_FILL, n ? n : 1);
    ++live;
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept
{
    live -= p != nullptr;
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
using t01::Text;
using t01::Use;
void t01::hook() {}

static uint64_t digest(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c: s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
/// Leaves the stack below in a known state.
__attribute__((noinline)) static void dirty(int b)
{
    char volatile a[16384];
    for (size_t i = 0; i < sizeof a; ++i)
        a[i] = char(b);
}
static std::string run(int kind, Text const& t)
{
#ifdef B01_FILL
    dirty(B01_FILL);
#endif
    Use* u = t01::create(kind, t);
    while (u->step()) {}
    std::string s = u->log;
    delete u;
    return s;
}

int main(int argc, char** argv)
{
    std::string digestFile;
    std::vector<std::string> others;
    std::vector<char*> rest { argv[0] };
    for (int i = 1; i < argc; ++i)
        if (std::string(argv[i]) == "--digests")
            digestFile = argv[++i];
        else if (argv[i][0] == '/' && std::string(argv[i - 1]) != "--out")
            others.push_back(argv[i]);
        else
            rest.push_back(argv[i]);
    mc::init(int(rest.size()), rest.data());
    int const K = t01::kinds();
    std::vector<std::vector<uint64_t>> want;
    std::vector<std::string> otherNames;
    // the other builds run first; they leave their digests behind
    for (auto& o: others)
    {
        char name[] = "/tmp/b01.XXXXXX";
        int const fd = mkstemp(name);
        if (fd < 0)
            return 3;
        close(fd);
        std::string const outFile = std::string(name) + ".json", shard = std::to_string(mc::opt.shard) + "/" + std::to_string(mc::opt.shards);
        pid_t const pid = fork();
        if (pid == 0)
        {
            mc::shareTime(uint64_t(others.size() - size_t(&o - others.data())) + 1);
            std::vector<char const*> a { o.c_str(), "--digests", name, "--shard", shard.c_str(), "--out", outFile.c_str() };
            if (mc::opt.thorough)
                a.push_back("--thorough");
            a.push_back(nullptr);
            execv(o.c_str(), const_cast<char**>(a.data()));
            _exit(126);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {}
        std::string js;
        if (FILE* f = fopen(outFile.c_str(), "r"))
        {
            char b[4096];
            size_t n;
            while ((n = fread(b, 1, sizeof b, f)) > 0)
                js.append(b, n);
            fclose(f);
        }
        auto& w = want.emplace_back();
        otherNames.push_back(o.find("pattern") != o.npos ? "filled with 0xFE" : "filled with 0");
        if (FILE* f = fopen(name, "rb"))
        {
            uint64_t v;
            while (fread(&v, 8, 1, f) == 1)
                w.push_back(v);
            fclose(f);
        }
        unlink(name);
        unlink(outFile.c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            // what it found is in its result
            auto const p = js.find("\"violations\"");
            auto t = p == js.npos ? std::string("status ") + std::to_string(st) : js.substr(p, 600);
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 126 || WEXITSTATUS(st) == 3))
                return 3;
            mc::violation("plain-build:" + t.substr(0, t.find(',')).substr(0, 80), "build with memory " + otherNames.back() + ": " + t);
        }
    }
    FILE* df = digestFile.empty() ? nullptr : fopen(digestFile.c_str(), "wb");
    uint64_t n = 0, compared = 0;
    t01::enumerateTexts([&](Text const& t) {
        if (mc::enough())
            return;
        for (int k = 0; k < K; ++k)
        {
            mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1, t.u32.empty() ? 0 : long(t.u32[0]), long(t.u32.size()));
            long const before = live;
            auto s = run(k, t);
            auto const d = digest(s);
            s = {};
#ifdef B01_FILL
            if (live > before + 0)
            {
                // something may be made once and kept; what grows every time is lost
                std::string().swap(s);
                long const l1 = live;
                run(k, t);
                long const l2 = live;
                run(k, t);
                if (live > l2 && l2 > l1)
                    mc::violation(std::string("leak:") + t01::kindName(k), std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " leaves memory behind every time");
            }
#else
            (void) before;
#endif
            if (df)
                fwrite(&d, 8, 1, df);
            for (size_t i = 0; i < want.size(); ++i)
                if (n < want[i].size())
                {
                    ++compared;
                    if (want[i][n] != d)
                        mc::violation(std::string("memory-dependent:") + t01::kindName(k),
                                      std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " / " + mc::hex(t.u32) + " gives another result in the build with memory " + otherNames[i]);
                }
            ++n;
            ++mc::traces;
        }
        ++mc::states;
    });
    if (df)
        fclose(df);
    mc::transitions = mc::traces;
    mc::extra["results compared between builds"] = compared;
    mc::extra["kinds of use"] = uint64_t(K);
    return mc::finish();
}
