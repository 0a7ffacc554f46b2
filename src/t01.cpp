// T01: independent uses of the library never influence each other.
//  1. Every write the (instrumented) library makes is checked: it may only go to the stack, to the memory of the
//     use that called it, or into a guarded one-time initialisation. Calls of different uses then have no
//     conflicting accesses, so all their schedules are equivalent (one Mazurkiewicz trace).
//  2. All interleavings of the steps of two uses (to a bound on context switches), on one and on two threads, and
//     uses made from inside receiver callbacks, give the results the uses give alone in a process of their own.
#include "mc.hpp"
#include "t01.hpp"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <array>
#include <memory>
#include <set>
#include <thread>

namespace
{
// ---------------------------------------------------------------- memory of the uses
struct Arena
{
    char *lo = nullptr, *hi = nullptr, *top = nullptr;
    void init(size_t n)
    {
        lo = top = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        hi = lo + n;
        if (lo == MAP_FAILED)
            _exit(3);
    }
    void* free[40] = {};
    // size classes are powers of two; the word before a block is its class
    void* get(size_t n, size_t align)
    {
        int c = 5;
        while ((size_t(1) << c) < n)
            ++c;
        if (align <= 16 && free[c])
        {
            void* p = free[c];
            free[c] = *static_cast<void**>(p);
            return p;
        }
        char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(top) + 16 + align - 1) & ~uintptr_t(align - 1));
        if (p + (size_t(1) << c) > hi)
            _exit(3);
        reinterpret_cast<long*>(p)[-1] = c;
        top = p + (size_t(1) << c);
        return p;
    }
    void put(void* p)
    {
        auto const c = static_cast<long*>(p)[-1];
        *static_cast<void**>(p) = free[c];
        free[c] = p;
    }
    bool has(void const* p) const { return p >= lo && p < hi; }
};
constexpr int Arenas = 3;
Arena arena[Arenas];
Arena locked; // allocated inside critical sections; never reused
int owner = -1;        // whose step is being taken
int initDepth = 0;     // inside a guarded one-time initialisation
int lockDepth = 0;     // inside a critical section
bool monitor = false;  // check writes
uintptr_t stackLo, stackHi, tlsLo, tlsHi;
uint64_t checkedWrites = 0, initWrites = 0, atomicWrites = 0;
struct Foreign
{
    uintptr_t addr = 0, pc = 0, size = 0;
};
std::array<Foreign, 64> foreign;
size_t foreignCount = 0;
std::array<uintptr_t, 256> published; // shared locations written by an atomic store
size_t publishedCount = 0;

bool inArena(void const* p)
{
    for (auto& a: arena)
        if (a.has(p))
            return true;
    return locked.has(p);
}
// Writes are checked while one use is alive: whatever else is in the arenas was left behind by finished ones (say, the
// buffer of a thread-local scratch string), and what refers to it there is not shared unless a write reported it.
bool mine(uintptr_t a)
{
    return inArena(reinterpret_cast<void const*>(a)) || (a >= stackLo && a < stackHi) || (a >= tlsLo && a < tlsHi);
}
void wrote(void const* p, size_t n, void const* pc)
{
    if (!monitor || owner < 0)
        return;
    ++checkedWrites;
    auto const a = reinterpret_cast<uintptr_t>(p);
    if (mine(a) || n == 0 || lockDepth)
        return;
    if (initDepth)
    {
        ++initWrites;
        return;
    }
    if (foreignCount < foreign.size())
        foreign[foreignCount++] = { a, reinterpret_cast<uintptr_t>(pc), n };
}
/// An atomic store publishes a value computed once; storing another one later changes shared state.
void wroteAtomically(void const* p, size_t n, bool changes, void const* pc)
{
    if (!monitor || owner < 0 || !changes)
        return;
    ++atomicWrites;
    auto const a = reinterpret_cast<uintptr_t>(p);
    if (mine(a) || initDepth || lockDepth)
        return;
    for (size_t i = 0; i < publishedCount; ++i)
        if (published[i] == a)
        {
            wrote(p, n, pc);
            return;
        }
    if (publishedCount < published.size())
        published[publishedCount++] = a;
}
} // namespace

void* operator new(size_t n)
{
    if (owner >= 0 && !initDepth)
        return (lockDepth ? locked : arena[owner]).get(n ? n : 1, 16);
    void* p = malloc(n ? n : 1);
    if (!p)
        _exit(3);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a)
{
    if (owner >= 0 && !initDepth)
        return (lockDepth ? locked : arena[owner]).get(n ? n : 1, size_t(a));
    void* p = aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a));
    if (!p)
        _exit(3);
    return p;
}
void* operator new(size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (!p)
        return;
    for (auto* a: { &arena[0], &arena[1], &arena[2], &locked })
        if (a->has(p))
            return a->put(p);
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- the instrumentation's runtime
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { wrote(p, 8, PC); }
void __tsan_vptr_read(void**) {}
#define RW(n)                                                       \
    void __tsan_read##n(void*) {}                                   \
    void __tsan_write##n(void* p) { wrote(p, n, PC); }              \
    void __tsan_unaligned_read##n(void*) {}                         \
    void __tsan_unaligned_write##n(void* p) { wrote(p, n, PC); }    \
    void __tsan_volatile_read##n(void*) {}                          \
    void __tsan_volatile_write##n(void* p) { wrote(p, n, PC); }     \
    void __tsan_read_write##n(void* p) { wrote(p, n, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void* p, size_t n) { wrote(p, n, PC); }
#define ATOMIC(bits, T)                                                                                                                          \
    T __tsan_atomic##bits##_load(T const volatile* p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }                                      \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int)                                                                                    \
    {                                                                                                                                            \
        wroteAtomically(const_cast<T*>(p), sizeof(T), *p != v, PC);                                                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                                \
    }                                                                                                                                            \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int)                                                                                    \
    {                                                                                                                                            \
        wroteAtomically(const_cast<T*>(p), sizeof(T), *p != v, PC);                                                                              \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                      \
    }                                                                                                                                            \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), v != 0, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), v != 0, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), (*p & v) != *p, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), (*p | v) != *p, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), v != 0, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int) { wroteAtomically(const_cast<T*>(p), sizeof(T), true, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int, int)                                                        \
    {                                                                                                                                            \
        wroteAtomically(const_cast<T*>(p), sizeof(T), *p == *e && v != *e, PC);                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int, int)                                                          \
    {                                                                                                                                            \
        wroteAtomically(const_cast<T*>(p), sizeof(T), *p == *e && v != *e, PC);                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                  \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n)
{
    wrote(d, n, PC);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
    wrote(d, n, PC);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    wrote(d, n, PC);
    return __real_memset(d, c, n);
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    ++initDepth;
    int const r = __real_pthread_once(o, f);
    --initDepth;
    return r;
}
#define LOCK(name, type)                       \
    int __real_##name(type*);                   \
    int __wrap_##name(type* m)                  \
    {                                           \
        int const r = __real_##name(m);         \
        lockDepth += r == 0;                    \
        return r;                               \
    }
#define UNLOCK(name, type)                      \
    int __real_##name(type*);                   \
    int __wrap_##name(type* m)                  \
    {                                           \
        lockDepth -= lockDepth > 0;             \
        return __real_##name(m);                \
    }
LOCK(pthread_mutex_lock, pthread_mutex_t)
LOCK(pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_spin_lock, pthread_spinlock_t volatile)
UNLOCK(pthread_spin_unlock, pthread_spinlock_t volatile)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
// Only one thread runs at a time here, so an initialisation is never contended.
int __cxa_guard_acquire(int64_t* g)
{
    if (*reinterpret_cast<char*>(g))
        return 0;
    ++initDepth;
    return 1;
}
void __cxa_guard_release(int64_t* g)
{
    *reinterpret_cast<char*>(g) = 1;
    --initDepth;
}
void __cxa_guard_abort(int64_t*) { --initDepth; }
}

// ---------------------------------------------------------------- explorer
using t01::Text;
using t01::Use;
static std::string symbol(uintptr_t a, bool code)
{
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0)
        return "?";
    exe[n] = 0;
    char cmd[8192];
    if (code)
        snprintf(cmd, sizeof cmd, "addr2line -f -C -s -e '%s' 0x%lx 2>/dev/null | head -1", exe, long(a - 1));
    else
        snprintf(cmd, sizeof cmd, "nm -C -n --defined-only '%s' 2>/dev/null | awk -v t=%016lx '$1<=t{l=$0} END{$0=l; $1=\"\"; $2=\"\"; print}'", exe, long(a));
    std::string r;
    if (FILE* p = popen(cmd, "r"))
    {
        char b[512];
        if (fgets(b, sizeof b, p))
            r = b;
        pclose(p);
    }
    while (!r.empty() && (r.back() == '\n' || r.back() == ' '))
        r.pop_back();
    while (!r.empty() && r.front() == ' ')
        r.erase(0, 1);
    return r;
}
static void reportForeign(char const* kind, Text const& t)
{
    static std::set<uintptr_t> seen;
    for (size_t i = 0; i < foreignCount; ++i)
    {
        auto const& f = foreign[i];
        if (!seen.insert(f.pc).second)
            continue;
        std::string const where = symbol(f.pc, true);
        mc::violation("shared-write:" + where, std::string(kind) + " on " + mc::hex(t.u32) + ": " + where + " writes " + std::to_string(f.size) + " bytes of memory that is not its caller's object, result or stack ("
                                                   + symbol(f.addr, false) + ")");
    }
    foreignCount = 0;
}

/// one use on one text, in arena k
struct Run
{
    int k;
    Use* u = nullptr;
    Run(int arenaIndex, int kind, Text const& t): k(arenaIndex)
    {
        in([&] { u = t01::create(kind, t); });
    }
    template <typename F> void in(F&& f)
    {
        int const before = owner;
        owner = k;
        f();
        owner = before;
    }
    bool step()
    {
        bool r = false;
        in([&] { r = u->step(); });
        return r;
    }
    std::string finish()
    {
        std::string r(u->log.data(), u->log.size());
        in([&] { delete u; });
        u = nullptr;
        return r;
    }
    Run(Run const&) = delete;
    Run& operator=(Run const&) = delete;
};
static std::string whole(int arenaIndex, int kind, Text const& t, size_t* steps = nullptr)
{
    Run r(arenaIndex, kind, t);
    size_t n = 0;
    while (r.step())
        ++n;
    if (steps)
        *steps = n;
    return r.finish();
}

// callbacks: what happens inside them
namespace
{
struct Inside
{
    int mode = 0; // 0 nothing, 1 one step of the inner use each time, 2 the whole inner use at callback `at`, 3 count, 4 the whole inner use at every callback
    int at = 0, count = 0;
    Run* inner = nullptr;
    int kind = 0;
    Text const* text = nullptr;
    std::string result;
    bool done = false;
    int depth = 0;
} inside;
} // namespace
void t01::hook()
{
    if (!inside.mode || inside.depth)
        return;
    bool const m = monitor;
    int const o = owner;
    owner = -1;
    ++inside.depth;
    int const n = inside.count++;
    if (inside.mode == 1)
    {
        if (inside.inner && !inside.done)
            inside.done = !inside.inner->step();
    }
    else if (inside.mode == 2 && n == inside.at)
    {
        inside.result = whole(1, inside.kind, *inside.text);
        inside.done = true;
    }
    else if (inside.mode == 4)
    {
        auto r = whole(1, inside.kind, *inside.text);
        if (r != inside.result)
            inside.done = true; // differed
    }
    --inside.depth;
    owner = o;
    monitor = m;
}

static std::string show(std::string const& s)
{
    std::string r;
    for (unsigned char c: s)
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02X", c);
            r += b;
        }
    return r.size() > 300 ? r.substr(0, 300) + "..." : r;
}
using t01::text;
// a second thread that runs what it is given, one task at a time
struct Worker
{
    sem_t go, done;
    void (*f)(void*) = nullptr;
    void* arg = nullptr;
    bool quit = false;
    pthread_t th {};
    Worker()
    {
        sem_init(&go, 0, 0);
        sem_init(&done, 0, 0);
        pthread_create(&th, nullptr, [](void* p) -> void* {
            auto* w = static_cast<Worker*>(p);
            while (true)
            {
                while (sem_wait(&w->go)) {}
                if (w->quit)
                    return nullptr;
                w->f(w->arg);
                sem_post(&w->done);
            }
        }, this);
    }
    template <typename F> void run(F& g)
    {
        f = [](void* p) { (*static_cast<F*>(p))(); };
        arg = &g;
        sem_post(&go);
        while (sem_wait(&done)) {}
    }
    ~Worker()
    {
        quit = true;
        sem_post(&go);
        pthread_join(th, nullptr);
    }
};

struct Known
{
    std::string log;
    size_t steps = 0;
};
static std::vector<Text> texts;
static std::vector<std::vector<Known>> alone; // [kind][text]: in a process of its own

static void baselines()
{
    int const K = t01::kinds();
    alone.resize(size_t(K));
    for (int k = 0; k < K; ++k)
        for (auto const& t: texts)
        {
            mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1);
            int fd[2];
            if (pipe(fd))
                exit(3);
            fflush(nullptr);
            pid_t const pid = fork();
            if (pid == 0)
            {
                close(fd[0]);
                size_t n = 0;
                std::string s = whole(0, k, t, &n);
                uint64_t const head[2] = { n, s.size() };
                bool ok = write(fd[1], head, sizeof head) == sizeof head;
                for (size_t p = 0; ok && p < s.size();)
                {
                    auto const w = write(fd[1], s.data() + p, s.size() - p);
                    ok = w > 0;
                    p += size_t(w > 0 ? w : 0);
                }
                _exit(ok ? 0 : 4);
            }
            close(fd[1]);
            std::string all;
            char b[65536];
            ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0)
                all.append(b, size_t(r));
            close(fd[0]);
            int st = 0;
            while (waitpid(pid, &st, 0) < 0) {}
            Known kn;
            if (!WIFEXITED(st) || WEXITSTATUS(st) || all.size() < 16)
                mc::violation(std::string("crash-alone:") + t01::kindName(k), std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " ends a process of its own abnormally");
            else
            {
                uint64_t head[2];
                memcpy(head, all.data(), 16);
                kn.steps = head[0];
                kn.log = all.substr(16);
            }
            alone[size_t(k)].push_back(kn);
        }
}
static void same(char const* how, int k, size_t t, std::string const& got, int k2, size_t t2, std::string const& schedule)
{
    auto const& want = alone[size_t(k)][t].log;
    if (got != want)
        mc::violation(std::string(how) + ":" + t01::kindName(k) + "|" + t01::kindName(k2),
                      std::string(t01::kindName(k)) + " on " + mc::hex(texts[t].u8) + ", " + how + " with " + t01::kindName(k2) + " on " + mc::hex(texts[t2].u8) + " (" + schedule + "): " + show(got) + ", alone: " + show(want));
}
/// Runs one schedule ('a'/'b' per step). threads: 0 one thread, 1 b on the second thread, 2 both change threads at every step
static void execute(int k1, size_t t1, int k2, size_t t2, std::string const& sched, int threads, Worker* w)
{
    mc::cur("schedule", sched.data(), sched.size(), 1, k1, k2, threads);
    Run a(0, k1, texts[t1]);
    std::unique_ptr<Run> b;
    std::string ra, rb;
    size_t na = 0, nb = 0;
    bool flipA = false, flipB = true;
    auto other = [&](bool onOther, auto&& f) {
        if (onOther)
            w->run(f);
        else
            f();
    };
    // b's object is made when it is first due: uses may be created while others are in the middle
    for (char c: sched)
    {
        if (c == 'a')
        {
            auto f = [&] { a.step(); };
            other(threads == 2 && flipA, f);
            flipA = !flipA;
            if (++na == alone[size_t(k1)][t1].steps)
                ra = a.finish();
        }
        else
        {
            auto f = [&] {
                if (!b)
                    b = std::make_unique<Run>(1, k2, texts[t2]);
                b->step();
            };
            other(threads == 1 || (threads == 2 && flipB), f);
            flipB = !flipB;
            if (++nb == alone[size_t(k2)][t2].steps)
                rb = b->finish();
        }
    }
    if (a.u)
        ra = a.finish();
    mc::traces++;
    mc::transitions += sched.size();
    char const* how[] = { "interleaved", "interleaved on two threads", "interleaved, changing threads" };
    same(how[threads], k1, t1, ra, k2, t2, sched);
    if (nb)
        same(how[threads], k2, t2, rb, k1, t1, sched);
}
static uint64_t schedules(size_t n, size_t m, int switches, std::vector<std::string>& out)
{
    std::string s;
    auto rec = [&](auto&& self, size_t a, size_t b, int left) -> void {
        if (!a && !b)
        {
            out.push_back(s);
            return;
        }
        for (char c: { 'a', 'b' })
        {
            if (c == 'a' ? !a : !b)
                continue;
            int const cost = !s.empty() && s.back() != c;
            if (cost > left)
                continue;
            s += c;
            self(self, a - (c == 'a'), b - (c == 'b'), left - cost);
            s.pop_back();
        }
    };
    rec(rec, n, m, switches);
    return out.size();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    for (auto& a: arena)
        a.init(size_t(1) << 28);
    locked.init(size_t(1) << 30);
    {
        pthread_attr_t at;
        void* p;
        size_t n;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &p, &n);
        stackLo = uintptr_t(p);
        stackHi = stackLo + n;
        pthread_attr_destroy(&at);
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_TLS && !(i->dlpi_name && *i->dlpi_name) && i->dlpi_tls_data)
                {
                    tlsLo = uintptr_t(i->dlpi_tls_data);
                    tlsHi = tlsLo + i->dlpi_phdr[k].p_memsz;
                }
            return 0;
        }, nullptr);
    }
    int const K = t01::kinds();
    auto t0 = time(nullptr);
    auto lap = [&](char const* w) { if (getenv("MC_TIME")) fprintf(stderr, "%s %ld\n", w, long(time(nullptr) - t0)); };
    for (auto& p: std::vector<std::vector<std::string>> {
             { "e", "\xCC\x81" },                                        // e + acute
             { "\xF0\x9F\x87\xA6", "\xF0\x9F\x87\xA7" },                 // flag
             { "a", "\xC3" },                                            // incomplete
             { "\xE1\x84\x80", "\xE1\x85\xA1" },                         // Hangul L V
             { "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE0\xA4\x95" },         // conjunct
             { "\xC3\x9F", " ", "\xC7\x84" },                            // sharp s, DZ
             { "\xE4\xB8\xAD", "\xFF", "x" },                            // malformed
             { "\xC2\xA9", "\xEF\xB8\x8F" },                             // VS16
             { "1", ".", "2" }, { "\xD7\x90", "\"", "a" }, { "\xCC\x81", "\xCC\xA7" }, { "\xF0\x9F\x98\x80", "\xE2\x80\x8D", "\xF0\x9F\x98\x80" },
             { "\x1B", "[" }, {},
         })
        texts.push_back(text(p));
    baselines();
    lap("baselines");
    // 2. interleavings of two uses
    uint64_t item = 0, full = 0, bounded = 0, reentrant = 0;
    {
        Worker worker;
        std::map<std::pair<size_t, size_t>, std::vector<std::string>> cache;
        size_t const T = texts.size();
        for (int k1 = 0; k1 < K; ++k1)
            for (int k2 = 0; k2 < K; ++k2)
                for (size_t t1 = 0; t1 < T; ++t1)
                    for (size_t t2 = 0; t2 < T; ++t2)
                    {
                        if (!mc::mine(item++) || mc::enough())
                            continue;
                        if (!mc::opt.thorough && (t1 * 5 + t2 * 3 + size_t(k1)) % 4) // quick: a quarter of the pairs of texts
                            continue;
                        size_t const n = alone[size_t(k1)][t1].steps, m = alone[size_t(k2)][t2].steps;
                        auto& s = cache[{ n, m }];
                        if (s.empty())
                        {
                            double c = 1;
                            for (size_t i = 1; i <= m; ++i)
                                c = c * double(n + i) / double(i);
                            schedules(n, m, c <= 500 ? 1 << 20 : mc::opt.thorough ? 4 : 3, s);
                        }
                        double c = 1;
                        for (size_t i = 1; i <= m; ++i)
                            c = c * double(n + i) / double(i);
                        (c <= 500 ? full : bounded)++;
                        for (auto& x: s)
                            execute(k1, t1, k2, t2, x, 0, nullptr);
                        if ((t1 + t2) % 4 == size_t(k1 + k2) % 4)
                        {
                            // on two threads: up to three context switches
                            auto& s2 = cache[{ n + 1000, m }];
                            if (s2.empty())
                                schedules(n, m, 3, s2);
                            for (size_t i = 0; i < s2.size(); ++i)
                            {
                                execute(k1, t1, k2, t2, s2[i], 1, &worker);
                                if (mc::opt.thorough || i % 8 == 0)
                                    execute(k1, t1, k2, t2, s2[i], 2, &worker);
                            }
                        }
                        ++mc::states;
                    }
        lap("interleavings");
        // 3. uses made inside callbacks
        for (int k1 = 0; k1 < K; ++k1)
        {
            if (!t01::hasCallbacks(k1))
                continue;
            for (int k2 = 0; k2 < K; ++k2)
                for (size_t t1 = 0; t1 < T; ++t1)
                    for (size_t t2 = 0; t2 < T; ++t2)
                    {
                        if (!mc::mine(item++) || mc::enough())
                            continue;
                        mc::cur("inside a callback", texts[t1].u8.data(), texts[t1].u8.size(), 1, k1, k2, long(t2));
                        inside = {};
                        inside.mode = 3;
                        same("with callbacks", k1, t1, whole(0, k1, texts[t1]), k1, t1, "counted");
                        int const calls = inside.count;
                        {
                            inside = {};
                            Run b(1, k2, texts[t2]);
                            inside.mode = 1;
                            inside.inner = &b;
                            same("from a callback", k1, t1, whole(0, k1, texts[t1]), k2, t2, "one step per callback, outer");
                            inside.mode = 0;
                            while (!inside.done)
                                inside.done = !b.step();
                            same("from a callback", k2, t2, b.finish(), k1, t1, "one step per callback, inner");
                        }
                        for (int j = 0; j < calls; ++j)
                        {
                            inside = {};
                            inside.mode = 2;
                            inside.at = j;
                            inside.kind = k2;
                            inside.text = &texts[t2];
                            same("from a callback", k1, t1, whole(0, k1, texts[t1]), k2, t2, "whole run in callback " + std::to_string(j) + ", outer");
                            same("from a callback", k2, t2, inside.result, k1, t1, "whole run in callback " + std::to_string(j) + ", inner");
                        }
                        inside = {};
                        reentrant += uint64_t(calls) + 1;
                        mc::traces += uint64_t(calls) + 1;
                    }
        }
        lap("callbacks");
        // every callback of every short text makes a whole use of its own
        std::vector<std::string> const open { "a", "\xC3\xA9", "\xCC\x81", "\xE4\xB8\xAD", "\xE2\x9D\xA4", "\xEF\xB8\x8F", "\xE2\x80\x8D", "\xF0\x9F\x87\xA6", "\xE0\xA4\xBE", "\xFF", "\xE4\xB8" };
        std::vector<Text> const innerTexts { text({ "\xE4\xB8\xAD", "\xC3\xA9" }), text({ "\xC3\xA9", "\xCC\x81", "\xFF", "\xE4\xB8" }) };
        std::vector<std::vector<std::string>> innerWant(innerTexts.size());
        for (size_t i = 0; i < innerTexts.size(); ++i)
            for (int k = 0; k < K; ++k)
                innerWant[i].push_back(whole(1, k, innerTexts[i]));
        mc::sequences(int(open.size()), 1, mc::opt.thorough ? 5 : 4, [&](std::vector<int> const& q) {
            if (!mc::mine(item++) || mc::enough())
                return;
            std::vector<std::string> p;
            for (int i: q)
                p.push_back(open[size_t(i)]);
            Text const t = text(p);
            for (int k1 = 0; k1 < K; ++k1)
            {
                if (!t01::hasCallbacks(k1))
                    continue;
                mc::cur("uses in every callback", t.u8.data(), t.u8.size(), 1, k1);
                inside = {};
                auto const want = whole(0, k1, t);
                for (int k2 = 0; k2 < K; ++k2)
                {
                    if (!t01::hasCallbacks(k2) && q.size() > (mc::opt.thorough ? 3 : 2))
                        continue;
                    for (size_t i = 0; i < innerTexts.size(); ++i)
                    {
                        inside = {};
                        inside.mode = 4;
                        inside.kind = k2;
                        inside.text = &innerTexts[i];
                        inside.result = innerWant[i][size_t(k2)];
                        auto const got = whole(0, k1, t);
                        if (got != want || inside.done)
                            mc::violation(std::string("reentrant:") + t01::kindName(k1) + "|" + t01::kindName(k2),
                                          std::string(t01::kindName(k1)) + " on " + mc::hex(t.u8) + " with a " + t01::kindName(k2) + " on " + mc::hex(innerTexts[i].u8) + " made in every callback: "
                                              + (inside.done ? "the inner use's results differ" : show(got) + ", alone: " + show(want)));
                        inside = {};
                        ++reentrant;
                        ++mc::traces;
                    }
                }
            }
            ++mc::states;
        });
        lap("reentrant");
    }
    // 1. what calls write, and that what they find does not depend on what was done before
    std::vector<std::string> logs(static_cast<size_t>(K));
    uint64_t calls = 0;
    auto record = [&](Text const& t) {
        for (int round = 0; round < 2; ++round)
            for (int k = 0; k < K; ++k)
            {
                mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1, round);
                monitor = true;
                std::string s = whole(round, k, t);
                monitor = false;
                ++calls;
                if (foreignCount)
                    reportForeign(t01::kindName(k), t);
                if (round == 0)
                    logs[size_t(k)] = std::move(s);
                else if (s != logs[size_t(k)])
                    mc::violation(std::string("history:") + t01::kindName(k), std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " gives " + show(logs[size_t(k)]) + " and later " + show(s));
            }
        ++mc::states;
    };
    std::vector<std::string> const pieces {
        "a", "Z", "1", " ", "\t", "\n", "\xC3\x9F", "\xCC\x81", "\xCC\xA7", "\xD7\x90", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\xE0\xA4\xBE", "\xE1\x84\x80", "\xE1\x85\xA1", "\xEA\xB0\x80",
        "\xE2\x80\x8D", "\xEF\xB8\x8E", "\xEF\xB8\x8F", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xF0\x9F\x87\xA6", "\xF0\x9F\x8F\xBB", "\xD8\x80", "\xFF", "\xC3", "\xE4\xB8", "\xC2\x85", "\xEF\xAC\x81", "\xC7\x84",
    };
    auto seq = [&](std::vector<int> const& s) {
        if (!mc::mine(item++) || mc::enough())
            return;
        std::vector<std::string> p;
        for (int i: s)
            p.push_back(pieces[size_t(i)]);
        record(text(p));
    };
    mc::sequences(int(pieces.size()), 0, mc::opt.thorough ? 3 : 2, seq);
    lap("sequences");
    for (size_t n: { 16u, 31u, 64u, 65u, 127u, 130u, 300u, 1000u })
        for (size_t p = 0; p < pieces.size(); ++p)
            for (size_t q = 0; q < pieces.size(); ++q)
            {
                if (!mc::mine(item++) || mc::enough() || (n > 130 && q != p))
                    continue;
                if (!mc::opt.thorough && (p * 7 + q * 3 + n) % 6)
                    continue;
                std::vector<std::string> v;
                for (size_t i = 0; i < n; ++i)
                    v.push_back(pieces[i % 2 ? q : p]);
                record(text(v));
            }
    lap("long");
    for (uint32_t c = 0; c < 0x110000; ++c)
        if (mc::isScalar(c) && mc::mine(c >> 8) && !mc::enough())
        {
            bool const big = (c >= 0x20000 && c < 0xE0000) || c >= 0xF0000;
            if (big && !mc::opt.thorough && c % 16)
                continue;
            std::u32string const u { U'a', char32_t(c) };
            Text const t(u, mc::utf8(u));
            record(t);
        }
    lap("code points");
    mc::traces += calls;
    mc::extra["monitored runs"] = calls;
    mc::extra["writes checked"] = checkedWrites;
    mc::extra["writes in one-time initialisations"] = initWrites;
    mc::extra["pairs explored with all interleavings"] = full;
    mc::extra["pairs explored with bounded context switches"] = bounded;
    mc::extra["executions with uses inside callbacks"] = reentrant;
    mc::sample(std::string(t01::kindName(0)) + " alone on " + mc::hex(texts[4].u8) + ": " + show(alone[0][4].log));
    mc::sample(std::string(t01::kindName(15)) + " alone on " + mc::hex(texts[4].u8) + ": " + show(alone[15][4].log));
    return mc::finish();
}
