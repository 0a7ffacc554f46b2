// Shared machinery of the exhaustive harnesses: options, counters, violation collection,
// crash/hang attribution, guard-paged buffers and JSON output.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc
{

struct Options
{
    bool thorough = false;
    unsigned shard = 0, shards = 1;
    std::string out;
    uint64_t seed = 1;
    std::vector<std::string> args;
};

struct Violation
{
    std::string key, detail;
    uint64_t count = 1;
};

inline Options opt;
/// Only the facts of Unicode's own code points (P01 runs the fact harnesses against other tables).
inline bool const factsOnly = getenv("MC_FACTS") != nullptr;
inline uint64_t states = 0, transitions = 0, traces = 0;
inline std::vector<std::string> samples;
inline std::vector<std::string> notes;
inline std::map<std::string, uint64_t> extra;
inline std::map<std::string, Violation> violations;
inline bool capped = false;

// --- what is being executed right now (read by the signal handlers) ---
inline char const* curWhat = "";
inline void const* curData = nullptr;
inline size_t curSize = 0; // bytes
inline size_t curUnit = 1;
inline long curA = 0, curB = 0, curC = 0;
inline volatile uint64_t curSerial = 0;

inline void cur(char const* what, void const* data, size_t units, size_t unitSize, long a = 0, long b = 0, long c = 0)
{
    curWhat = what;
    curData = data;
    curSize = units * unitSize;
    curUnit = unitSize;
    curA = a;
    curB = b;
    curC = c;
    curSerial = curSerial + 1;
}

inline std::string hex(void const* d, size_t units, size_t unit)
{
    std::string r;
    char buf[32];
    for (size_t i = 0; i < units; ++i)
    {
        uint32_t v = 0;
        if (i >= 400)
        {
            snprintf(buf, sizeof buf, "...(%zu units)", units);
            r += buf;
            break;
        }
        memcpy(&v, static_cast<char const*>(d) + i * unit, unit);
        snprintf(buf, sizeof buf, unit == 1 ? "%02X" : unit == 2 ? "%04X" : "U+%04X", v);
        if (i)
            r += ' ';
        r += buf;
    }
    return r;
}
template <typename S>
std::string hex(S const& s)
{
    return hex(s.data(), s.size(), sizeof(s.data()[0]));
}
inline std::string hexcp(char32_t c)
{
    char b[16];
    snprintf(b, sizeof b, "U+%04X", unsigned(c));
    return b;
}

inline std::string jsonEscape(std::string_view s)
{
    std::string r;
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7F)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}

/// Records a violation. `key` identifies the failing class of case (one replay file per key).
inline void violation(std::string const& key, std::string const& detail)
{
    auto it = violations.find(key);
    if (it != violations.end())
    {
        it->second.count++;
        return;
    }
    if (violations.size() >= 200)
        return;
    violations.emplace(key, Violation { key, detail });
}
/// Wall-clock limit of the exploration (check.py sets it so that a check always answers): what is left then is not explored, and the evidence says so.
inline time_t const deadline = getenv("MC_DEADLINE") ? time_t(atoll(getenv("MC_DEADLINE"))) : 0;
inline bool late()
{
    if (!deadline || time(nullptr) < deadline)
        return false;
    capped = true;
    return true;
}
inline bool enough() { return violations.size() >= 40 || late(); }
/// In a forked child, before exec: it gets its part of the time that is left.
inline void shareTime(uint64_t parts)
{
    if (deadline)
    {
        time_t const now = time(nullptr);
        setenv("MC_DEADLINE", std::to_string(int64_t(now) + int64_t(deadline > now ? deadline - now : 0) / int64_t(parts ? parts : 1)).c_str(), 1);
    }
}

inline void sample(std::string s)
{
    if (samples.size() < 6)
        samples.push_back(std::move(s));
}
inline void note(std::string s)
{
    notes.push_back(std::move(s));
}

inline std::string join(std::vector<std::string> const& v, bool quote = true)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + (quote ? "\"" + jsonEscape(v[i]) + "\"" : v[i]);
    return r + "]";
}

inline void writeResult(bool complete)
{
    std::string j = "{\"complete\":";
    j += complete ? "true" : "false";
    j += ",\"capped\":";
    j += capped ? "true" : "false";
    j += ",\"states\":" + std::to_string(states) + ",\"transitions\":" + std::to_string(transitions)
         + ",\"traces\":" + std::to_string(traces);
    j += ",\"samples\":" + join(samples) + ",\"notes\":" + join(notes) + ",\"extra\":{";
    bool first = true;
    for (auto& [k, v]: extra)
    {
        j += (first ? "\"" : ",\"") + jsonEscape(k) + "\":" + std::to_string(v);
        first = false;
    }
    j += "},\"violations\":[";
    first = true;
    for (auto& [k, v]: violations)
    {
        j += first ? "" : ",";
        first = false;
        j += "{\"key\":\"" + jsonEscape(v.key) + "\",\"detail\":\"" + jsonEscape(v.detail)
             + "\",\"count\":" + std::to_string(v.count) + "}";
    }
    j += "]}\n";
    if (opt.out.empty())
    {
        fwrite(j.data(), 1, j.size(), stdout);
        fflush(stdout);
        return;
    }
    FILE* f = fopen(opt.out.c_str(), "w");
    if (!f)
        _exit(3);
    fwrite(j.data(), 1, j.size(), f);
    fclose(f);
}

inline void describeCur(char const* kind, std::string& key, std::string& detail)
{
    key = std::string(kind) + ":" + curWhat;
    detail = std::string(kind) + " while executing " + curWhat + " a=" + std::to_string(curA) + " b=" + std::to_string(curB)
             + " c=" + std::to_string(curC) + " input=";
    if (curData)
        detail += hex(curData, curSize / curUnit, curUnit);
}

inline void onCrash(int sig)
{
    static volatile sig_atomic_t in = 0;
    if (in)
        _exit(98);
    in = 1;
    std::string k, d;
    char b[24];
    snprintf(b, sizeof b, "crash-signal-%d", sig);
    describeCur(b, k, d);
    violation(k, d);
    writeResult(false);
    _exit(96);
}

inline void onAlarm(int)
{
    static uint64_t last = ~uint64_t(0);
    static int same = 0;
    if (curData && curSerial == last)
    {
        if (++same >= (getenv("MC_HANG_TICKS") ? atoi(getenv("MC_HANG_TICKS")) : 10)) // ticks of 3 s of *CPU* time
        {
            std::string k, d;
            describeCur("hang", k, d);
            violation(k, d);
            writeResult(false);
            _exit(97);
        }
    }
    else
    {
        same = 0;
        last = curSerial;
    }
}

inline void init(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough")
            opt.thorough = true;
        else if (a == "--shard" && i + 1 < argc)
        {
            std::string s = argv[++i];
            opt.shard = unsigned(atoi(s.c_str()));
            opt.shards = unsigned(atoi(s.c_str() + s.find('/') + 1));
        }
        else if (a == "--out" && i + 1 < argc)
            opt.out = argv[++i];
        else
            opt.args.push_back(a);
    }
    static char alt[256 * 1024];
    stack_t ss {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = onCrash;
    for (int s: { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTERM })
        if (s != SIGTERM)
            sigaction(s, &sa, nullptr);
    sa.sa_handler = onAlarm;
    sa.sa_flags = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it {};
    it.it_interval.tv_sec = it.it_value.tv_sec = 3;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline int finish()
{
    curData = nullptr;
    writeResult(true);
    return violations.empty() ? 0 : 1;
}

/// True when item `i` of an enumeration belongs to this shard.
inline bool mine(uint64_t i) { return i % opt.shards == opt.shard; }

/// A buffer whose end (and, with atStart, whose beginning) touches an inaccessible page.
class Guarded
{
  public:
    explicit Guarded(size_t capacity)
    {
        page_ = size_t(sysconf(_SC_PAGESIZE));
        cap_ = (capacity + page_ - 1) / page_ * page_;
        base_ = static_cast<char*>(mmap(nullptr, cap_ + 2 * page_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base_ == MAP_FAILED)
            _exit(3);
        mprotect(base_, page_, PROT_NONE);
        mprotect(base_ + page_ + cap_, page_, PROT_NONE);
    }
    ~Guarded() { munmap(base_, cap_ + 2 * page_); }
    Guarded(Guarded const&) = delete;
    Guarded& operator=(Guarded const&) = delete;
    size_t capacity() const { return cap_; }
    /// n bytes that end exactly at the inaccessible page.
    char* atEnd(size_t n) { return base_ + page_ + cap_ - n; }
    /// n bytes that begin exactly after the inaccessible page.
    char* atBegin() { return base_ + page_; }

    /// Copies s so that its last byte is the last accessible byte.
    std::string_view put(std::string_view s)
    {
        char* p = atEnd(s.size());
        if (!s.empty())
            memcpy(p, s.data(), s.size());
        return { p, s.size() };
    }
    std::u16string_view put16(std::u16string_view s)
    {
        char* p = atEnd(s.size() * 2);
        if (!s.empty())
            memcpy(p, s.data(), s.size() * 2);
        return { reinterpret_cast<char16_t*>(p), s.size() };
    }
    std::u32string_view put32(std::u32string_view s)
    {
        char* p = atEnd(s.size() * 4);
        if (!s.empty())
            memcpy(p, s.data(), s.size() * 4);
        return { reinterpret_cast<char32_t*>(p), s.size() };
    }

  private:
    char* base_;
    size_t cap_, page_;
};

/// Enumerates all sequences over {0..k-1} with lengths lo..hi; calls f(vector<int>&).
template <typename F>
void sequences(int k, int lo, int hi, F&& f)
{
    std::vector<int> s;
    for (int n = lo; n <= hi; ++n)
    {
        s.assign(size_t(n), 0);
        while (true)
        {
            f(s);
            int i = n - 1;
            while (i >= 0 && s[size_t(i)] == k - 1)
                s[size_t(i--)] = 0;
            if (i < 0)
                break;
            s[size_t(i)]++;
        }
    }
}

inline void utf8Append(std::string& s, char32_t c)
{
    if (c < 0x80)
        s += char(c);
    else if (c < 0x800)
    {
        s += char(0xC0 | (c >> 6));
        s += char(0x80 | (c & 0x3F));
    }
    else if (c < 0x10000)
    {
        s += char(0xE0 | (c >> 12));
        s += char(0x80 | ((c >> 6) & 0x3F));
        s += char(0x80 | (c & 0x3F));
    }
    else
    {
        s += char(0xF0 | (c >> 18));
        s += char(0x80 | ((c >> 12) & 0x3F));
        s += char(0x80 | ((c >> 6) & 0x3F));
        s += char(0x80 | (c & 0x3F));
    }
}
inline std::string utf8(std::u32string_view t)
{
    std::string s;
    for (char32_t c: t)
        utf8Append(s, c);
    return s;
}
inline void utf16Append(std::u16string& s, char32_t c)
{
    if (c < 0x10000)
        s += char16_t(c);
    else
    {
        s += char16_t(0xD800 + ((c - 0x10000) >> 10));
        s += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF));
    }
}
inline bool isScalar(char32_t c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }

} // namespace mc
