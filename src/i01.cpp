// I01: the library gives the same results whenever it is called: before main, at exit (after its own static objects, had it any, are gone), while a
// thread ends, in a thread with little stack, in a signal handler's frame, in a forked child, while an exception is under way.
// Every moment runs the whole enumeration in a process of its own; what it finds out is compared with the same in main.
// usage: i01 [--shard i/n] ...       (children: I01_MOMENT=NAME I01_DIGESTS=FILE in the environment)
#include "texts.hpp"
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" char const* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:check_initialization_order=1:detect_stack_use_after_return=0"; }
extern "C" char const* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=1"; }
using t01::Text;
using t01::Use;
void t01::hook() {}

static uint64_t digest(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c: s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
static std::string run(int kind, Text const& t)
{
    Use* u = t01::create(kind, t);
    while (u->step()) {}
    std::string s = u->log;
    delete u;
    return s;
}
/// Everything on every text; f is told each digest. At most `first` texts.
template <typename F> static void everything(F const& f, uint64_t first = ~uint64_t(0))
{
    int const K = t01::kinds();
    uint64_t n = 0;
    t01::enumerateTexts([&](Text const& t) {
        if (n++ >= first || mc::enough())
            return;
        for (int k = 0; k < K; ++k)
        {
            mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1, t.u32.empty() ? 0 : long(t.u32[0]), long(t.u32.size()));
            f(digest(run(k, t)), k, t);
            ++mc::traces;
        }
        ++mc::states;
    }, mc::opt.thorough ? 4 : 8);
}
static char const* const moments[] = { "before main", "before main and then in main", "at exit", "thread end", "little stack", "forked child", "signal handler", "unwinding", "first call in a thread that has ended" };

namespace child
{
static std::string moment;
static FILE* file = nullptr;
static void record()
{
    everything([](uint64_t d, int, Text const&) { fwrite(&d, 8, 1, file); });
    fflush(file);
}
static constexpr uint64_t warm = 60;
static void warmUp()
{
    everything([](uint64_t, int, Text const&) {}, warm);
}
[[noreturn]] static void leave() // with all that was recorded, without running anything else
{
    fclose(file);
    _exit(mc::finish());
}
static void start()
{
    std::string s;
    std::ifstream in("/proc/self/cmdline");
    s.assign(std::istreambuf_iterator<char>(in), {});
    std::vector<char*> v;
    for (size_t i = 0; i < s.size(); i += strlen(s.data() + i) + 1)
        v.push_back(s.data() + i);
    mc::init(int(v.size()), v.data());
    file = fopen(getenv("I01_DIGESTS"), "wb");
    if (!file)
        _exit(3);
}
static void onSignal(int) { record(); }
struct AtThreadEnd
{
    bool armed = false;
    ~AtThreadEnd()
    {
        if (armed)
            record();
    }
};
static thread_local AtThreadEnd atThreadEnd;
struct Unwinding
{
    ~Unwinding() { record(); }
};
static void inThread(size_t stack, void* (*f)(void*) )
{
    pthread_attr_t a;
    pthread_t t;
    pthread_attr_init(&a);
    if (stack)
        pthread_attr_setstacksize(&a, stack);
    if (pthread_create(&t, &a, f, nullptr))
        _exit(3);
    pthread_join(t, nullptr);
}
static int atMain()
{
    if (moment == "before main and then in main")
        record();
    else if (moment == "at exit")
    {
        warmUp();
        return 0; // the rest is in ~Early
    }
    else if (moment == "thread end")
        inThread(0, [](void*) -> void* {
            atThreadEnd.armed = true;
            warmUp();
            return nullptr;
        });
    else if (moment == "little stack")
        inThread(192 * 1024, [](void*) -> void* {
            record();
            return nullptr;
        });
    else if (moment == "forked child")
    {
        warmUp();
        mc::states = mc::traces = 0;
        pid_t const p = fork();
        if (p == 0)
        {
            record();
            leave();
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        if (WIFSIGNALED(st))
            raise(SIGKILL);
        _exit(WEXITSTATUS(st));
    }
    else if (moment == "signal handler")
    {
        warmUp();
        signal(SIGUSR1, onSignal);
        raise(SIGUSR1);
    }
    else if (moment == "unwinding")
    {
        try
        {
            Unwinding u;
            throw 1;
        }
        catch (int)
        {
        }
    }
    else if (moment == "first call in a thread that has ended")
    {
        inThread(0, [](void*) -> void* {
            warmUp();
            return nullptr;
        });
        mc::states = mc::traces = 0;
        record();
    }
    leave();
}
} // namespace child

struct Other
{
    std::string name, file;
    std::vector<uint64_t> digests;
};

int main(int argc, char** argv)
{
    if (!child::moment.empty())
        return child::atMain();
    mc::init(argc, argv);
    std::vector<Other> others;
    for (auto m: moments)
    {
        Other o;
        o.name = m;
        char name[] = "/tmp/i01.XXXXXX";
        int const fd = mkstemp(name);
        if (fd < 0)
            return 3;
        close(fd);
        o.file = name;
        pid_t const p = fork();
        if (p == 0)
        {
            mc::shareTime(uint64_t(std::size(moments) - others.size()) + 1);
            std::string const out = o.file + ".json", shard = std::to_string(mc::opt.shard) + "/" + std::to_string(mc::opt.shards);
            setenv("I01_MOMENT", m, 1);
            setenv("I01_DIGESTS", name, 1);
            execl("/proc/self/exe", "i01", "--shard", shard.c_str(), "--out", out.c_str(), mc::opt.thorough ? "--thorough" : nullptr, nullptr);
            _exit(126);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        std::ifstream in(o.file + ".json");
        std::string js;
        js.assign(std::istreambuf_iterator<char>(in), {});
        unlink((o.file + ".json").c_str());
        if (FILE* f = fopen(name, "rb"))
        {
            uint64_t v;
            while (fread(&v, 8, 1, f) == 1)
                o.digests.push_back(v);
            fclose(f);
        }
        unlink(name);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 126 || WEXITSTATUS(st) == 3))
            return 3;
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            auto const q = js.find("\"violations\"");
            mc::violation("fails:" + o.name, o.name + ": " + (q == js.npos ? "status " + std::to_string(st) : js.substr(q, 600)));
            o.digests.clear();
        }
        if (js.find("\"capped\":true") != js.npos)
            o.digests.clear(); // no time for all of it
        others.push_back(o);
    }
    uint64_t n = 0, compared = 0;
    everything([&](uint64_t d, int k, Text const& t) {
        for (auto& o: others)
            for (uint64_t i = n; i < o.digests.size() && !o.digests.empty(); i += o.name == "before main and then in main" ? o.digests.size() / 2 : o.digests.size())
            {
                ++compared;
                if (o.digests[i] != d)
                    mc::violation("differs:" + o.name + ":" + t01::kindName(k), std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " / " + mc::hex(t.u32) + " gives another result: " + o.name);
            }
        ++n;
    });
    for (auto& o: others)
        if (!mc::capped && !o.digests.empty() && o.digests.size() != n * (o.name == "before main and then in main" ? 2 : 1))
            mc::violation("stops:" + o.name, o.name + ": " + std::to_string(o.digests.size()) + " results instead of " + std::to_string(n));
    mc::transitions = compared;
    mc::extra["moments"] = uint64_t(others.size());
    mc::extra["kinds of use"] = uint64_t(t01::kinds());
    return mc::finish();
}

/// The last object of the last harness file: made after everything the harness needs, but before any static object of the library, which is linked behind
/// it; so it is also destroyed after those.
static struct Early
{
    Early()
    {
        if (char const* m = getenv("I01_MOMENT"))
        {
            child::moment = m;
            child::start();
            if (child::moment.rfind("before main", 0) == 0)
            {
                child::record();
                if (child::moment == "before main")
                    child::leave();
            }
        }
    }
    ~Early()
    {
        if (child::moment == "at exit")
        {
            mc::states = mc::traces = 0;
            child::record();
            child::leave();
        }
    }
} early;
