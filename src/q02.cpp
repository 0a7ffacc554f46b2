// Q02: no call executes instructions of a wider vector unit than the selected one.
// Every instruction of the program's own code that needs a wider unit than MC_SIMD allows (found by its encoding in the disassembly, a list given as
// argument) is replaced by a breakpoint; then everything is done with every text at full speed, and whatever meets a breakpoint is told.
#include "mc.hpp"
#include "t01.hpp"
#include "texts.hpp"
#include <csignal>
#include <fstream>
#include <ucontext.h>
using t01::Text;
using t01::Use;
void t01::hook() {}

static uint64_t asked = 0;
static size_t selected()
{
    char const* w = getenv("MC_SIMD");
    return w ? size_t(atoi(w)) : 128;
}
namespace unicode::detail
{
std::size_t max_simd_size()
{
    ++asked;
    return selected();
}
} // namespace unicode::detail

extern "C" char __executable_start;
static std::unordered_map<uintptr_t, std::pair<unsigned char, int>> points; // what was there, what it needs
static uint64_t hits = 0;
static int hitLevel = 0;
static uintptr_t hitAt = 0;
static void onTrap(int, siginfo_t*, void* u)
{
    auto& r = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
    auto const at = uintptr_t(r[REG_RIP]) - 1;
    auto const p = points.find(at);
    if (p == points.end())
    {
        static char const m[] = "unexpected breakpoint\n";
        (void) !write(2, m, sizeof m - 1);
        _exit(3);
    }
    ++hits;
    hitLevel = std::max(hitLevel, p->second.second);
    hitAt = at;
    *reinterpret_cast<unsigned char*>(at) = p->second.first; // it goes on, without being asked again
    r[REG_RIP] = greg_t(at);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    size_t const width = selected();
    __builtin_cpu_init();
    if ((width >= 256 && !__builtin_cpu_supports("avx2")) || (width >= 512 && !(__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw"))))
    {
        mc::note("vector width " + std::to_string(width) + " is not supported by this CPU: not explored");
        return mc::finish();
    }
    int const allowed = width >= 512 ? 2 : width >= 256 ? 1 : 0;
    uint64_t known = 0;
    {
        std::ifstream in(mc::opt.args.at(0));
        std::string word;
        int level;
        if (!in)
            return 3;
        uintptr_t const base = uintptr_t(&__executable_start), page = uintptr_t(sysconf(_SC_PAGESIZE));
        while (in >> word >> level)
        {
            ++known;
            if (level <= allowed)
                continue;
            uintptr_t const at = base + std::stoull(word, nullptr, 16);
            points[at] = { *reinterpret_cast<unsigned char*>(at), level };
        }
        for (auto& [at, p]: points)
        {
            auto* const b = reinterpret_cast<void*>(at & ~(page - 1));
            if (mprotect(b, page, PROT_READ | PROT_WRITE | PROT_EXEC))
                return 3;
            *reinterpret_cast<unsigned char*>(at) = 0xCC;
        }
    }
    struct sigaction sa {};
    sa.sa_sigaction = onTrap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    int const K = t01::kinds();
    t01::enumerateTexts([&](Text const& t) {
        if (mc::enough())
            return;
        for (int k = 0; k < K; ++k)
        {
            mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1, long(width), long(t.u32.size()));
            uint64_t const before = hits;
            hitLevel = 0;
            Use* const u = t01::create(k, t);
            while (u->step()) {}
            delete u;
            ++mc::traces;
            if (hits != before && asked) // a library that does not ask was not told the width either
                mc::violation("width " + std::to_string(width) + ":" + t01::kindName(k),
                              std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " / " + mc::hex(t.u32) + ": with " + std::to_string(width) + " bits selected, an " + (hitLevel == 2 ? "AVX-512" : "AVX")
                                  + " instruction is executed at offset " + std::to_string(hitAt - uintptr_t(&__executable_start)));
        }
        ++mc::states;
    }, mc::opt.thorough ? 1 : 4);
    mc::transitions = mc::traces;
    mc::extra["kinds of use"] = uint64_t(K);
    mc::extra["AVX and AVX-512 instructions of the program"] = known;
    mc::extra["breakpoints with " + std::to_string(width) + " bits selected"] = points.size();
    if (!asked)
        mc::note("the library never asked for the width");
    return mc::finish();
}
