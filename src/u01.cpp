// U01: the query tool (the real program, run on argument lists) shows what the library says.
// usage: u01 TOOL [--shard i/n] ...
#include "graphref.hpp"
#include "mc.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <csignal>
#include <fcntl.h>
using namespace unicode;

static std::string tool;
struct Result
{
    int code = -1;
    std::string out, err;
};
static Result run(std::vector<std::string> const& args)
{
    std::vector<char*> av { const_cast<char*>(tool.c_str()) };
    for (auto& a: args)
        av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    int o[2], e[2];
    if (pipe(o) || pipe(e))
        exit(3);
    fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0)
    {
        int const n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        dup2(o[1], 1);
        dup2(e[1], 2);
        for (int i = 3; i < 64; ++i)
            close(i);
        execv(av[0], av.data());
        _exit(126);
    }
    close(o[1]);
    close(e[1]);
    Result r;
    pollfd p[2] { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
    std::string* to[2] { &r.out, &r.err };
    static char b[1 << 16];
    for (int left = 2; left;)
    {
        if (poll(p, 2, -1) < 0)
            continue;
        for (int i = 0; i < 2; ++i)
            if (p[i].fd >= 0 && p[i].revents)
            {
                ssize_t const n = read(p[i].fd, b, sizeof b);
                if (n > 0)
                    to[i]->append(b, size_t(n));
                else
                {
                    close(p[i].fd);
                    p[i].fd = -1;
                    --left;
                }
            }
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (r.code == 126)
        exit(3);
    ++mc::traces;
    return r;
}
/// Runs the tool on an output that takes `room` bytes (-1: a full device, -2: closed, -3: a pipe nobody reads). Returns the exit code.
static int runInto(std::vector<std::string> const& args, long room)
{
    std::vector<char*> av { const_cast<char*>(tool.c_str()) };
    for (auto& a: args)
        av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    int p[2] { -1, -1 };
    int const to = room >= 0 ? memfd_create("output", 0) : room == -1 ? open("/dev/full", O_WRONLY) : room == -3 && pipe(p) == 0 ? p[1] : open("/dev/null", O_WRONLY);
    if (to < 0)
        exit(3);
    fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0)
    {
        int const n = open("/dev/null", O_RDWR);
        dup2(n, 0);
        dup2(n, 2);
        dup2(to, 1);
        for (int i = 3; i < 64; ++i)
            close(i);
        if (room == -2)
            close(1);
        if (room >= 0)
        {
            rlimit const l { rlim_t(room), rlim_t(room) };
            signal(SIGXFSZ, SIG_IGN);
            if (setrlimit(RLIMIT_FSIZE, &l))
                _exit(126);
        }
        signal(SIGPIPE, SIG_IGN);
        execv(av[0], av.data());
        _exit(126);
    }
    close(to);
    if (p[0] >= 0)
        close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    ++mc::traces;
    int const code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (code == 126)
        exit(3);
    return code;
}
static std::string show(std::string const& s)
{
    std::string r;
    for (unsigned char c: s.substr(0, 200))
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char b[8];
            snprintf(b, sizeof b, "<%02X>", c);
            r += b;
        }
    return r;
}
/// \xHH back to bytes; false if there is a malformed escape
static bool unescape(std::string_view s, std::string& out, size_t& escapes)
{
    out.clear();
    escapes = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\')
        {
            out += s[i];
            continue;
        }
        if (i + 3 >= s.size() + 0 || s[i + 1] != 'x' || !isxdigit(uint8_t(s[i + 2])) || !isxdigit(uint8_t(s[i + 3])))
            return false;
        out += char(strtoul(std::string(s.substr(i + 2, 2)).c_str(), nullptr, 16));
        ++escapes;
        i += 3;
    }
    return true;
}
/// Whether `line` shows `bytes`, escaping all but printable ASCII (all) or just the C0 controls.
static bool shows(std::string_view line, std::string const& bytes, bool all)
{
    std::string back;
    size_t escapes = 0, want = 0;
    for (unsigned char c: line)
        if (c < 0x20 || (all && c >= 0x7F))
            return false;
    if (!unescape(line, back, escapes) || back != bytes)
        return false;
    for (unsigned char c: bytes)
        want += c < 0x20;
    return all || escapes == want;
}
template <typename T> static std::string str(T const& v)
{
    std::ostringstream s;
    s << v;
    return s.str();
}
static std::vector<std::string_view> lines(std::string_view s)
{
    std::vector<std::string_view> r;
    for (size_t i = 0; i < s.size();)
    {
        size_t const e = s.find('\n', i);
        r.push_back(s.substr(i, e - i));
        i = e == s.npos ? s.size() : e + 1;
    }
    return r;
}
static std::string trim(std::string_view s)
{
    while (!s.empty() && s.back() == ' ')
        s.remove_suffix(1);
    while (!s.empty() && s.front() == ' ')
        s.remove_prefix(1);
    return std::string(s);
}

// ------------------------------------------------------------------ records
static std::string checkRecord(std::map<std::string, std::string> const& r, char32_t c)
{
    auto const p = codepoint_properties::get(c);
    auto age = str(p.age);
    if (p.age != Age::Unassigned && !age.empty() && age[0] == 'V')
        age.erase(0, 1);
    for (auto& x: age)
        if (x == '_' && p.age != Age::Unassigned)
            x = '.';
    std::vector<std::pair<std::string, std::string>> want {
        { "Name", std::string(codepoint_properties::name(c)) },
        { "Unicode Version", age },
        { "Plane", str(plane(c)) },
        { "Block", str(block(c)) },
        { "Script", str(script(c)) },
        { "General Category", str(p.general_category) },
        { "East Asian Width", str(p.east_asian_width) },
        { "Character width", std::to_string(unsigned(p.char_width)) },
        { "Emoji Segmentation Category", str(p.emoji_segmentation_category) },
        { "Emoji Presentation", p.is_emoji_presentation() ? "emoji" : "text" },
        { "Grapheme Cluster Break", str(p.grapheme_cluster_break) },
    };
    auto at = [&](std::string const& k) {
        auto i = r.find(k);
        return i == r.end() ? std::string("(missing)") : i->second;
    };
    for (auto& [k, v]: want)
        if (at(k) != trim(v))
            return k + ": shown \"" + show(at(k)) + "\", library \"" + v + "\"";
    auto cp = at("Codepoint");
    char* end = nullptr;
    if (cp.size() < 3 || cp.substr(0, 2) != "U+" || strtoul(cp.c_str() + 2, &end, 16) != c || *end)
        return "Codepoint: shown " + cp;
    if (mc::isScalar(c))
    {
        std::string u8;
        mc::utf8Append(u8, c);
        auto q = at("UTF-8");
        if (q.size() < 2 || q.front() != '"' || q.back() != '"' || (c != '\\' && !shows(std::string_view(q).substr(1, q.size() - 2), u8, true)))
            return "UTF-8: shown " + show(q);
        if (p.general_category != General_Category::Control && at("Display") != trim(u8))
            return "Display: shown " + show(at("Display"));
    }
    return {};
}
/// Runs the tool on the arguments and compares the records with those of `want`.
static void records(std::vector<std::string> const& args, std::u32string const& want, size_t failures, char const* what)
{
    mc::cur(what, args[0].data(), args[0].size(), 1, long(args.size()));
    auto const r = run(args);
    auto where = [&](size_t n) { return std::string(what) + " (record " + std::to_string(n) + " of unicode-query " + show(args[0]) + (args.size() > 1 ? " " + show(args[1]) : "") + " ...): "; };
    if (r.code)
        mc::violation(std::string("exit:") + what, where(0) + "exit code " + std::to_string(r.code));
    std::map<std::string, std::string> rec;
    size_t n = 0;
    auto close = [&] {
        if (rec.empty())
            return;
        ++mc::transitions;
        if (n >= want.size())
            mc::violation(std::string("too many records:") + what, where(n) + "a record of " + rec["Codepoint"] + " nobody asked for");
        else if (auto e = checkRecord(rec, want[n]); !e.empty())
            mc::violation(std::string("record:") + e.substr(0, e.find(':')), where(n) + mc::hexcp(want[n]) + ": " + e);
        ++n;
        rec.clear();
    };
    for (auto l: lines(r.out))
    {
        if (l.empty())
        {
            close();
            continue;
        }
        auto const c = l.find(" : ");
        auto const c2 = c == l.npos ? l.find(':') : c + 1;
        if (c2 == l.npos)
            mc::violation(std::string("line:") + what, where(n) + "unexpected line " + show(std::string(l)));
        else
            rec[trim(l.substr(0, c2))] = trim(l.substr(c2 + 1));
    }
    close();
    if (n < want.size())
        mc::violation(std::string("too few records:") + what, where(n) + "only " + std::to_string(n) + " of " + std::to_string(want.size()) + " records");
    if (failures && r.err.empty())
        mc::violation(std::string("silent:") + what, where(0) + "nothing on standard error about " + std::to_string(failures) + " arguments that name no code point");
    if (!failures && !r.err.empty())
        mc::violation(std::string("stderr:") + what, where(0) + "complaint " + show(r.err));
}

// ------------------------------------------------------------------ gc, runs
struct Texts
{
    std::vector<std::u32string> t;
    size_t bytes = 0;
};
static void clusters(Texts& b, bool all)
{
    if (b.t.empty())
        return;
    std::vector<std::string> args { "gc" };
    if (all)
        args.push_back("-e");
    args.push_back("--");
    size_t const first = args.size();
    for (auto& t: b.t)
        args.push_back(mc::utf8(t));
    mc::cur("gc", args[first].data(), args[first].size(), 1, all, long(b.t.size()));
    auto const r = run(args);
    auto const l = lines(r.out);
    size_t k = 0;
    std::string bad;
    for (size_t i = 0; i < b.t.size() && bad.empty(); ++i)
    {
        auto const& t = b.t[i];
        auto cuts = gref::boundaries(t);
        cuts.push_back(t.size());
        for (size_t j = 0; j + 1 < cuts.size(); ++j)
        {
            auto const want = mc::utf8(std::u32string_view(t).substr(cuts[j], cuts[j + 1] - cuts[j]));
            ++mc::transitions;
            if (k >= l.size() || !shows(l[k], want, all))
            {
                bad = "cluster " + std::to_string(j) + " of " + mc::hex(t) + " is shown as " + (k < l.size() ? show(std::string(l[k])) : "nothing");
                break;
            }
            ++k;
        }
        ++mc::states;
    }
    if (bad.empty() && k != l.size())
        bad = "extra line " + show(std::string(l[k]));
    if (bad.empty() && (r.code || !r.err.empty()))
        bad = "exit code " + std::to_string(r.code) + " " + show(r.err);
    if (!bad.empty())
        mc::violation(all ? "gc -e" : "gc", std::string("unicode-query gc") + (all ? " -e: " : ": ") + bad);
}
static void runs(Texts& b, bool all)
{
    if (b.t.empty())
        return;
    std::vector<std::string> args { "runs" };
    if (all)
        args.push_back("-e");
    args.push_back("--");
    size_t const first = args.size();
    for (auto& t: b.t)
        args.push_back(mc::utf8(t));
    mc::cur("runs", args[first].data(), args[first].size(), 1, all, long(b.t.size()));
    auto const r = run(args);
    auto const l = lines(r.out);
    size_t k = 0;
    std::string bad;
    for (size_t i = 0; i < b.t.size() && bad.empty(); ++i)
    {
        auto const& t = b.t[i];
        run_segmenter rs(t);
        run_segmenter::range x {};
        while (rs.consume(out(x)) && bad.empty())
        {
            ++mc::transitions;
            auto const head = std::to_string(x.start) + "-" + std::to_string(x.end - 1) + " (" + std::to_string(x.end - x.start) + "): " + str(std::get<Script>(x.properties)) + " "
                              + str(std::get<PresentationStyle>(x.properties));
            auto const want = mc::utf8(std::u32string_view(t).substr(x.start, x.end - x.start));
            if (k + 1 >= l.size())
                bad = "run " + head + " of " + mc::hex(t) + " is missing";
            else if (l[k] != head)
                bad = "run " + head + " of " + mc::hex(t) + " is shown as " + show(std::string(l[k]));
            else if (auto q = l[k + 1]; q.size() < 2 || q.front() != '"' || q.back() != '"' || !shows(q.substr(1, q.size() - 2), want, all))
                bad = "text of run " + head + " of " + mc::hex(t) + " is shown as " + show(std::string(l[k + 1]));
            k += 2;
            while (k < l.size() && l[k].empty())
                ++k;
        }
        ++mc::states;
    }
    if (bad.empty() && k != l.size())
        bad = "extra line " + show(std::string(l[k]));
    if (bad.empty() && (r.code || !r.err.empty()))
        bad = "exit code " + std::to_string(r.code) + " " + show(r.err);
    if (!bad.empty())
        mc::violation(all ? "runs -e" : "runs", std::string("unicode-query runs") + (all ? " -e: " : ": ") + bad);
}

int main(int argc, char** argv)
{
    if (argc < 2)
        return 2;
    tool = argv[1];
    mc::init(argc - 1, argv + 1);
    if (mc::opt.shard == 0)
        mc::note("grapheme reference agrees with " + std::to_string(gref::selfCheck()) + " lines of GraphemeBreakTest.txt");
    uint64_t item = 0;
    // every code point by number, every character as text
    auto hexArg = [](char32_t c, int form) {
        char b[24];
        snprintf(b, sizeof b, form == 0 ? "U+%X" : form == 1 ? "U+%04x" : "U+%012X", unsigned(c));
        return std::string(b);
    };
    for (int form = 0; form < 4; ++form)
        for (uint32_t base = 0; base < 0x110000; base += 0x1000)
        {
            if (!mc::mine(item++) || mc::enough())
                continue;
            std::vector<std::string> args;
            std::u32string want;
            bool const dull = (base >= 0x20000 && base < 0xE0000) || base >= 0xF0000 || (base >= 0x4000 && base < 0x9000) || (base >= 0xB000 && base < 0xD000);
            for (uint32_t c = base; c < base + 0x1000; ++c)
            {
                if (!mc::opt.thorough && (form == 0 ? dull && c % 4 : c % (dull ? 64 : 4)) && (c & 0xFFFF) < 0xFFF0)
                    continue;
                if (form == 3 && (!mc::isScalar(c) || c == 0))
                    continue;
                args.push_back(form == 3 ? mc::utf8(std::u32string(1, char32_t(c))) : hexArg(char32_t(c), form));
                want += char32_t(c);
                ++mc::states;
            }
            if (args.empty())
                continue;
            if (form != 2)
                args.insert(args.begin(), "properties"); // the word is optional
            records(args, want, 0, form == 0 ? "U+XXXX" : form == 1 ? "U+xxxx" : form == 2 ? "U+00000000XXXX" : "text");
        }
    // arguments of several characters, arguments that name no code point between others
    {
        std::vector<std::string> bad, all;
        std::string const digits = "0F1g-x +.";
        mc::sequences(int(digits.size()), 1, 4, [&](std::vector<int> const& s) {
            std::string a = "U+";
            for (int i: s)
                a += digits[size_t(i)];
            all.push_back(a);
        });
        for (int n = 1; n <= 40; ++n)
            for (char d: { '1', 'F', '0', '8' })
                all.push_back("U+" + std::string(size_t(n), d));
        for (char const* x: { "U+110000", "U+10FFFF", "U+10FFFFF", "U+100000000", "U+100000041", "U+FFFFFFFF", "U+80000041", "U+10000000000000041" })
            all.push_back(x);
        std::vector<std::string> args { "properties" };
        std::u32string want;
        size_t failures = 0;
        auto flush = [&] {
            if (args.size() > 1 && mc::mine(item++) && !mc::enough())
                records(args, want, failures, "numbers");
            args.resize(1);
            want.clear();
            failures = 0;
        };
        size_t k = 0;
        for (auto& a: all)
        {
            auto const d = a.substr(2);
            bool const hex = d.find_first_not_of("0123456789abcdefABCDEF") == d.npos;
            auto const z = d.find_first_not_of('0');
            auto const sig = z == d.npos ? std::string("0") : d.substr(z);
            unsigned long const v = hex && sig.size() <= 6 ? strtoul(sig.c_str(), nullptr, 16) : ~0ul;
            args.push_back(a);
            ++mc::states;
            if (v <= 0x10FFFF)
                want += char32_t(v);
            else
                ++failures;
            args.push_back("x\xC3\xA9");
            want += U"x\u00E9";
            if (++k % 16 == 0 || failures == 1) // also alone: a single failure must be reported
                flush();
        }
        flush();
    }
    // clusters and runs
    std::u32string const A { U'a', U'1', U' ', U'"', U'-', U'\r', U'\n', U'\t', 1, 0x1B, 0x7F, 0x85, 0xE9, 0x301, 0x200D, 0xFE0F, 0x1F600, 0x1F1E6, 0x1100, 0x1161, 0x0915, 0x094D, 0x0903, 0x4E2D, 0x5D0, 0x600, 0x10FFFD };
    for (int mode = 0; mode < 4; ++mode)
    {
        Texts b;
        auto flush = [&] {
            if (mc::mine(item++) && !mc::enough())
                mode < 2 ? clusters(b, mode & 1) : runs(b, mode & 1);
            b = {};
        };
        auto add = [&](std::u32string t) {
            b.bytes += t.size() * 4 + 9;
            b.t.push_back(std::move(t));
            if (b.t.size() >= 4000 || b.bytes > 400000)
                flush();
        };
        mc::sequences(int(A.size()), 0, mc::opt.thorough ? 4 : 3, [&](std::vector<int> const& s) {
            std::u32string t;
            for (int i: s)
                t += A[size_t(i)];
            add(t);
        });
        for (char32_t c: A)
            for (char32_t d: A)
            {
                std::u32string t;
                for (int i = 0; i < 150; ++i)
                    t += i % 2 ? d : c;
                add(t);
            }
        for (uint32_t c = 1; c < 0x110000; ++c)
            if (mc::isScalar(c) && c != '\\' && (mc::opt.thorough || c < 0x3000 || c % 61 == 0))
                add({ char32_t(c), U'a', char32_t(c) });
        flush();
        add(std::u32string(30000, U'a') + std::u32string(1000, 0x301));
        flush();
    }
    // command line
    if (mc::opt.shard == 0)
    {
        auto expect = [&](std::vector<std::string> const& a, int code, std::string const& out, bool usage) {
            auto const r = run(a);
            std::string s;
            for (auto& x: a)
                s += " " + x;
            bool const isUsage = r.out.find("unicode-query") != r.out.npos;
            if (r.code != code || isUsage != usage || (!usage && r.out != out))
                mc::violation("command line:" + s, "unicode-query" + s + ": exit code " + std::to_string(r.code) + ", output " + show(r.out));
            ++mc::states;
        };
        expect({}, 1, "", true);
        expect({ "help" }, 0, "", true);
        for (char const* c: { "gc", "runs" })
        {
            expect({ c, "-x", "a" }, 1, "", true);
            expect({ c, "-e", "-x" }, 1, "", true);
            expect({ c, "--bad" }, 1, "", true);
            expect({ c }, 0, "", false);
            expect({ c, "-e" }, 0, "", false);
            expect({ c, "--" }, 0, "", false);
            expect({ c, "", "" }, 0, "", false);
        }
        expect({ "gc", "a-e", "-e" }, 0, "a\n-\ne\n-\ne\n", false);
        expect({ "gc", "--", "-e" }, 0, "-\ne\n", false);
        expect({ "gc", "--", "--" }, 0, "-\n-\n", false);
        expect({ "gc", "e", "\xCC\x81" }, 0, "e\n\xCC\x81\n", false); // arguments are separate texts
    }
    // an output that takes only so many bytes: success is reported only if everything was written
    {
        std::vector<std::vector<std::string>> const uses {
            { "help" }, { "U+41" }, { "properties", "U+1F600", "U+7" }, { "x\xC3\xA9" }, { "gc", "ab\xCC\x81" }, { "gc", "-e", "\t\xC3\xA9", "x" },
            { "runs", "a\xD7\x90\xF0\x9F\x98\x80" }, { "runs", "-e", "a\xD7\x90", "b" }, { "gc", std::string(5000, 'a') }, { "runs", std::string(5000, 'a') },
            { "properties", std::string(30, 'a') }, {}, { "gc", "-x" },
        };
        uint64_t points = 0;
        for (auto& a: uses)
        {
            auto const r = run(a);
            long const size = long(r.out.size());
            std::string what;
            for (auto& x: a)
                what += " " + (x.size() > 40 ? x.substr(0, 3) + "..." : x);
            for (long room = -3; room <= size + 1; ++room)
            {
                bool const dense = size <= 1200 || room < 40 || room > size - 40 || room % 1024 < 2 || room % 1024 == 1023;
                if (!dense || !mc::mine(item++) || mc::enough())
                    continue;
                int const code = runInto(a, room);
                bool const whole = room >= size;
                ++mc::states;
                ++mc::transitions;
                ++points;
                if (whole ? code != r.code : code == 0 || code > 128)
                    mc::violation("output-failure", "unicode-query" + show(what) + " exits with " + std::to_string(code) + " although "
                                      + (room == -1 ? "the device it writes to is full" : room == -2 ? "its output is closed" : room == -3 ? "nobody reads its output"
                                         : "its output of " + std::to_string(size) + " bytes has room for " + std::to_string(room)));
            }
        }
        mc::extra["points at which the output fails"] = points;
    }
    mc::extra["programs run"] = mc::traces;
    return mc::finish();
}
