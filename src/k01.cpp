// K01: the same results in every build (compiler, optimization, signedness of char, vector implementation) and in every environment (locale, stream
// locale, errno, rounding mode, environment variables, working directory, closed standard streams).
// usage: k01 [--digests FILE --env NAME] [=NAME=EXECUTABLE ...] [--locales DIR] [--shard i/n] ...
#include "texts.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <fstream>
#include <locale>
#include <sstream>
#include <sys/wait.h>
using t01::Text;
using t01::Use;
void t01::hook() {}
namespace env
{
/// Digits in groups, a comma, other words for true and false.
struct Grouped: std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
/// Every letter has another case form than expected, nothing is a blank or printable.
struct Odd: std::ctype<char>
{
    static mask const* odd()
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i)
            t[i] = i % 3 ? mask(upper | digit) : mask(space | cntrl);
        return t;
    }
    Odd(): std::ctype<char>(odd()) {}
    char do_toupper(char c) const override { return char(c + 1); }
    char do_tolower(char c) const override { return char(c - 1); }
    char const* do_toupper(char* a, char const* b) const override
    {
        for (; a != b; ++a)
            ++*a;
        return b;
    }
    char const* do_tolower(char* a, char const* b) const override
    {
        for (; a != b; ++a)
            --*a;
        return b;
    }
};
static char const* const names[] = { "turkish", "latin1", "shift-jis", "c-utf8", "c++ locale", "errno", "rounding", "variables", "streams" };
/// 0: done; 1: not available here
static int enter(std::string const& name)
{
    auto cLocale = [](char const* n) { return setlocale(LC_ALL, n) ? (void) std::locale::global(std::locale(n)), 0 : 1; };
    if (name == "turkish")
        return cLocale("tr_TR.UTF-8");
    if (name == "latin1")
        return cLocale("de_DE.ISO-8859-1");
    if (name == "shift-jis")
        return setlocale(LC_ALL, "ja_JP.SHIFT_JIS") ? 0 : 1;
    if (name == "c-utf8")
        return cLocale("C.UTF-8");
    if (name == "c++ locale")
        std::locale::global(std::locale(std::locale(std::locale::classic(), new Grouped), new Odd));
    else if (name == "errno")
        errno = EILSEQ;
    else if (name == "rounding")
        fesetround(FE_UPWARD);
    else if (name == "variables")
    {
        for (char const* n: { "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TERM", "COLUMNS", "HOME", "PATH", "TZ", "POSIXLY_CORRECT", "LIBUNICODE_SIMD", "UNICODE_VERSION", "NO_COLOR" })
            setenv(n, "tr_TR.ISO-8859-9", 1);
        if (chdir("/"))
            return 1;
    }
    else if (name == "streams")
    {
        close(0);
        close(1);
    }
    return 0;
}
} // namespace env

static uint64_t digest(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c: s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
static std::string run(int kind, Text const& t)
{
    Use* u = t01::create(kind, t);
    while (u->step()) {}
    std::string s = u->log;
    delete u;
    return s;
}

struct Other
{
    std::string name, exe, env, file;
    std::vector<uint64_t> digests;
    pid_t pid = 0;
};

int main(int argc, char** argv)
{
    std::string digestFile, envName;
    std::vector<Other> others;
    std::vector<char*> rest { argv[0] };
    for (int i = 1; i < argc; ++i)
    {
        std::string const a = argv[i];
        if (a == "--digests")
            digestFile = argv[++i];
        else if (a == "--env")
            envName = argv[++i];
        else if (a == "--locales")
            setenv("LOCPATH", argv[++i], 1);
        else if (a[0] == '=')
        {
            Other o;
            o.name = a.substr(1, a.find('=', 1) - 1);
            o.exe = a.substr(a.find('=', 1) + 1);
            others.push_back(o);
        }
        else
            rest.push_back(argv[i]);
    }
    bool const child = !digestFile.empty();
    mc::init(int(rest.size()), rest.data());
    FILE* df = nullptr;
    if (child)
    {
        df = fopen(digestFile.c_str(), "wb");
        if (!df)
            return 3;
        if (!envName.empty() && env::enter(envName))
        {
            fclose(df);
            unlink(digestFile.c_str());
            return mc::finish(); // not available
        }
    }
    else
    {
        for (auto n: env::names)
        {
            Other o;
            o.name = std::string("environment ") + n;
            o.env = n;
            o.exe = "/proc/self/exe";
            others.push_back(o);
        }
        for (auto& o: others)
        {
            char name[] = "/tmp/k01.XXXXXX";
            int const fd = mkstemp(name);
            if (fd < 0)
                return 3;
            close(fd);
            o.file = name;
        }
    }
    // at most two of the others at a time, while this process waits
    auto start = [&](Other& o) {
        std::string const outFile = o.file + ".json", shard = std::to_string(mc::opt.shard) + "/" + std::to_string(mc::opt.shards);
        o.pid = fork();
        if (o.pid == 0)
        {
            mc::shareTime(uint64_t(others.size() - size_t(&o - others.data())) + 1);
            std::vector<char const*> a { o.exe.c_str(), "--digests", o.file.c_str(), "--shard", shard.c_str(), "--out", outFile.c_str() };
            if (!o.env.empty())
            {
                a.push_back("--env");
                a.push_back(o.env.c_str());
            }
            if (mc::opt.thorough)
                a.push_back("--thorough");
            a.push_back(nullptr);
            execv(o.exe.c_str(), const_cast<char**>(a.data()));
            _exit(126);
        }
    };
    int missing = 0;
    auto finishOther = [&](Other& o) {
        int st = 0;
        while (waitpid(o.pid, &st, 0) < 0) {}
        std::string js;
        std::ifstream in(o.file + ".json");
        js.assign(std::istreambuf_iterator<char>(in), {});
        unlink((o.file + ".json").c_str());
        bool const there = access(o.file.c_str(), R_OK) == 0;
        if (FILE* f = fopen(o.file.c_str(), "rb"))
        {
            uint64_t v;
            while (fread(&v, 8, 1, f) == 1)
                o.digests.push_back(v);
            fclose(f);
        }
        unlink(o.file.c_str());
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 126 || WEXITSTATUS(st) == 3))
            exit(3);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            auto const p = js.find("\"violations\"");
            auto t = p == js.npos ? std::string("status ") + std::to_string(st) : js.substr(p, 600);
            mc::violation("fails:" + o.name, o.name + ": " + t);
        }
        else if (!there)
        {
            mc::notes.push_back(o.name + ": not available here");
            ++missing;
        }
    };
    for (auto& o: others)
    {
        start(o);
        finishOther(o);
    }
    uint64_t n = 0, compared = 0;
    int const K = t01::kinds();
    t01::enumerateTexts([&](Text const& t) {
        if (mc::enough())
            return;
        for (int k = 0; k < K; ++k)
        {
            mc::cur(t01::kindName(k), t.u8.data(), t.u8.size(), 1, t.u32.empty() ? 0 : long(t.u32[0]), long(t.u32.size()));
            auto const d = digest(run(k, t));
            if (df)
                fwrite(&d, 8, 1, df);
            for (auto& o: others)
                if (n < o.digests.size())
                {
                    ++compared;
                    if (o.digests[n] != d)
                        mc::violation("differs:" + o.name + ":" + t01::kindName(k),
                                      std::string(t01::kindName(k)) + " on " + mc::hex(t.u8) + " / " + mc::hex(t.u32) + " gives another result with " + o.name);
                }
            ++n;
            ++mc::traces;
        }
        ++mc::states;
    });
    if (df)
        fclose(df);
    mc::transitions = compared ? compared : mc::traces;
    if (!child)
    {
        mc::extra["builds and environments compared with the plain one"] = uint64_t(others.size()) - uint64_t(missing);
        mc::extra["kinds of use"] = uint64_t(K);
    }
    return mc::finish();
}
