// Q01: max_simd_size() under every answer of CPUID and XGETBV.
// The detector is compiled from the tree to assembly; its cpuid/xgetbv instructions are replaced by
// calls of the handlers below (see lib/checks.py), so the environment's answers are enumerated.
#include "mc.hpp"

namespace unicode::detail
{
auto max_simd_size() -> size_t;
}

struct Env
{
    uint32_t maxLeaf;
    uint32_t l1ecx, l1edx;
    uint32_t l7ebx, l7ecx, l7edx;
    uint64_t xcr0;
    uint32_t junk; // answer bits of everything else
};
static Env env;
static bool badXgetbv, badLeaf;
static std::set<std::pair<uint32_t, uint32_t>> asked;

extern "C" void vt_cpuid(uint32_t* r) // r: eax ebx ecx edx in and out
{
    uint32_t leaf = r[0], sub = r[2];
    asked.insert({ leaf, sub });
    ++mc::transitions;
    uint32_t j = env.junk;
    if (leaf < 0x80000000 && leaf > env.maxLeaf)
    {
        badLeaf = true;
        // Intel CPUs answer an unsupported leaf with the data of the highest supported one; AMD with zero.
        r[0] = r[1] = r[2] = r[3] = j;
        return;
    }
    switch (leaf)
    {
        case 0:
            r[0] = env.maxLeaf;
            r[1] = 0x756E6547;
            r[3] = 0x49656E69;
            r[2] = 0x6C65746E;
            return;
        case 1:
            r[0] = 0x000806EA;
            r[1] = j;
            r[2] = env.l1ecx;
            r[3] = env.l1edx;
            return;
        case 7:
            if (sub == 0)
            {
                r[0] = 1;
                r[1] = env.l7ebx;
                r[2] = env.l7ecx;
                r[3] = env.l7edx;
                return;
            }
            r[0] = r[1] = r[2] = r[3] = j;
            return;
        case 0x80000000:
            r[0] = 0x80000008;
            r[1] = r[2] = r[3] = 0;
            return;
        default: r[0] = r[1] = r[2] = r[3] = j; return;
    }
}
extern "C" void vt_xgetbv(uint32_t* r)
{
    if (!(env.l1ecx & (1u << 27)))
        badXgetbv = true; // #UD on a real machine
    uint32_t idx = r[2];
    ++mc::transitions;
    uint64_t v = idx == 0 ? env.xcr0 : (env.junk ? ~uint64_t(0) : 0);
    r[0] = uint32_t(v);
    r[3] = uint32_t(v >> 32);
}
// The instruction replacement: saves everything, calls the C++ handler with the four registers.
asm(R"(
.text
.globl vt_cpuid_insn
vt_cpuid_insn:
    pushfq
    push %rbp
    mov %rsp, %rbp
    push %rdi; push %rsi; push %r8; push %r9; push %r10; push %r11
    sub $1200, %rsp
    and $-64, %rsp
    mov %eax, 1024(%rsp)
    mov %ebx, 1028(%rsp)
    mov %ecx, 1032(%rsp)
    mov %edx, 1036(%rsp)
    fxsave64 (%rsp)
    lea 1024(%rsp), %rdi
    call vt_cpuid
    fxrstor64 (%rsp)
    mov 1024(%rsp), %eax
    mov 1028(%rsp), %ebx
    mov 1032(%rsp), %ecx
    mov 1036(%rsp), %edx
    lea -48(%rbp), %rsp
    pop %r11; pop %r10; pop %r9; pop %r8; pop %rsi; pop %rdi
    pop %rbp
    popfq
    ret
.globl vt_xgetbv_insn
vt_xgetbv_insn:
    pushfq
    push %rbp
    mov %rsp, %rbp
    push %rdi; push %rsi; push %r8; push %r9; push %r10; push %r11; push %rcx
    sub $1200, %rsp
    and $-64, %rsp
    mov %eax, 1024(%rsp)
    mov %ebx, 1028(%rsp)
    mov %ecx, 1032(%rsp)
    mov %edx, 1036(%rsp)
    fxsave64 (%rsp)
    lea 1024(%rsp), %rdi
    call vt_xgetbv
    fxrstor64 (%rsp)
    mov 1024(%rsp), %eax
    mov 1036(%rsp), %edx
    lea -56(%rbp), %rsp
    pop %rcx; pop %r11; pop %r10; pop %r9; pop %r8; pop %rsi; pop %rdi
    pop %rbp
    popfq
    ret
)");

/// What the detector remembers between calls; forgotten before each call.
extern "C" char __start_vtstate[] __attribute__((weak)), __stop_vtstate[] __attribute__((weak));
extern "C" void (*__start_vtinit[])() __attribute__((weak));
extern "C" void (*__stop_vtinit[])() __attribute__((weak));
static void startAfresh()
{
    static std::vector<char> const first(__start_vtstate, __stop_vtstate);
    std::copy(first.begin(), first.end(), __start_vtstate);
    for (auto* f = __start_vtinit; f < __stop_vtinit; ++f)
        (*f)();
}

static size_t expected()
{
    bool osxsave = env.l1ecx & (1u << 27), avx = env.l1ecx & (1u << 28);
    if (!osxsave || !avx || (env.xcr0 & 0x6) != 0x6)
        return 128;
    if (env.maxLeaf < 7 || !(env.l7ebx & (1u << 5)))
        return 128;
    bool f = env.l7ebx & (1u << 16), bw = env.l7ebx & (1u << 30), bitalg = env.l7ecx & (1u << 12);
    if (f && bw && bitalg && (env.xcr0 & 0xE6) == 0xE6)
        return 512;
    return 256;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    uint32_t const leaves[] = { 1, 2, 4, 6, 7, 8, 0xD, 0x14, 0x20 };
    uint64_t item = 0;
    std::set<size_t> outcomes;
    auto one = [&] {
        if (!mc::mine(item++) || mc::enough())
            return;
        badXgetbv = badLeaf = false;
        mc::cur("max_simd_size", &env, sizeof env, 1);
        startAfresh();
        size_t got = unicode::detail::max_simd_size();
        if (unicode::detail::max_simd_size() != got)
            mc::violation("width-changes", "a second call selects another width than " + std::to_string(got));
        size_t want = expected();
        ++mc::states;
        ++mc::traces;
        outcomes.insert(got);
        char d[400];
        snprintf(d, sizeof d, "max leaf %u, leaf1.ecx %08X, leaf7 ebx %08X ecx %08X, XCR0 %llX, other words %08X: selects %zu, expected %zu", env.maxLeaf, env.l1ecx, env.l7ebx, env.l7ecx,
                 (unsigned long long) env.xcr0, env.junk, got, want);
        if (got != want)
            mc::violation("width:" + std::to_string(got) + "/" + std::to_string(want), d);
        if (badXgetbv)
            mc::violation("xgetbv-without-osxsave", d);
        if (badLeaf)
            mc::violation("unreported-leaf", d);
    };
    // every combination of the feature bits and register-state bits the decision may depend on
    for (uint32_t ml: leaves)
        for (uint32_t junk: { 0u, ~0u })
            for (unsigned x = 0; x < 256; ++x) // XCR0 bits 0..7
                for (unsigned b1 = 0; b1 < 8; ++b1)
                    for (unsigned b7 = 0; b7 < 16; ++b7)
                        for (unsigned c7 = 0; c7 < 2; ++c7)
                        {
                            env.maxLeaf = ml;
                            env.junk = junk;
                            // undecided bits of the words are all clear or all set
                            uint32_t bg = junk;
                            uint32_t m1 = (1u << 27) | (1u << 28) | (1u << 26);
                            env.l1ecx = (bg & ~m1) | (b1 & 1 ? 1u << 27 : 0) | (b1 & 2 ? 1u << 28 : 0) | (b1 & 4 ? 1u << 26 : 0);
                            env.l1edx = bg;
                            uint32_t m7 = (1u << 5) | (1u << 16) | (1u << 30) | (1u << 31);
                            env.l7ebx = (bg & ~m7) | (b7 & 1 ? 1u << 5 : 0) | (b7 & 2 ? 1u << 16 : 0) | (b7 & 4 ? 1u << 30 : 0) | (b7 & 8 ? 1u << 31 : 0);
                            env.l7ecx = (bg & ~(1u << 12)) | (c7 ? 1u << 12 : 0);
                            env.l7edx = bg;
                            env.xcr0 = x | (junk ? 0x20000 : 0);
                            one();
                        }
    // single feature bits flipped against realistic machines: every bit of every word
    struct Base
    {
        uint32_t l1, b7, c7;
        uint64_t x;
    } const bases[] = { { 0x7FFAFBFF, 0xF3BFA7EB, 0x00417F5E, 0xE7 }, { 0x7FFAFBFF, 0x009C6FBF, 0, 0x7 }, { 0x0198220B, 0, 0, 0x3 }, { 0x7EDAF38F, 0xD39FFFFB, 0x00000008, 0x2FF } };
    for (auto& b: bases)
        for (uint32_t ml: leaves)
            for (int w = 0; w < 4; ++w)
                for (int bit = 0; bit < (w == 3 ? 64 : 32); ++bit)
                    for (int bit2 = bit; bit2 < (w == 3 ? 64 : 32); ++bit2)
                    {
                        env = { ml, b.l1, ~0u, b.b7, b.c7, 0, b.x, 0 };
                        uint32_t m = (1u << (bit & 31)) | (1u << (bit2 & 31));
                        if (w == 0) env.l1ecx ^= m;
                        if (w == 1) env.l7ebx ^= m;
                        if (w == 2) env.l7ecx ^= m;
                        if (w == 3) env.xcr0 ^= (uint64_t(1) << bit) | (uint64_t(1) << bit2);
                        one();
                        env.junk = ~0u;
                        one();
                    }
    mc::extra["distinct_widths_selected"] = outcomes.size();
    mc::extra["distinct_cpuid_queries"] = asked.size();
    if (asked.empty())
    {
        fprintf(stderr, "the detector executed no cpuid instruction that could be intercepted\n");
        return 3;
    }
    mc::sample("max leaf 7, AVX+OSXSAVE, XCR0=E7, AVX2, AVX512F, AVX512BW, BITALG -> 512; same with XCR0=7 -> 256");
    return mc::finish();
}
