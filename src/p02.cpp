// P02: the table generator reports success only when every file it wrote is complete and right. Every operation on the data directory and on the output
// directory fails once (and, thorough, from then on), is interrupted or done in part, or is the last one before the process is killed.
// The generator itself runs; its system calls are stopped at with ptrace and given the result of the fault.
// usage: p02 GENERATOR DATA SCRATCH [--shard i/n] ...
#include "mc.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string generator, data, scratch, out;

enum Op { OpenIn, OpenOut, Read, Write, CloseIn, CloseOut, Other, None };
static char const* const opNames[] = { "opening a data file", "opening an output file", "reading", "writing", "closing a data file", "closing an output file", "rename, sync or truncate" };
enum Fault { Nothing, Fails, FailsFromThere, Interrupted, Partial, Killed };
static char const* const faultNames[] = { "nothing", "fails", "fails from there on", "is interrupted", "is done in part", "is the last" };

static std::string readString(pid_t p, uint64_t a)
{
    std::string s;
    char buf[256];
    while (s.size() < 4096)
    {
        size_t const room = 4096 - (a & 4095);
        iovec l { buf, std::min(sizeof buf, room) }, r { reinterpret_cast<void*>(a), std::min(sizeof buf, room) };
        ssize_t const n = process_vm_readv(p, &l, 1, &r, 1, 0);
        if (n <= 0)
            break;
        for (ssize_t i = 0; i < n; ++i)
        {
            if (!buf[i])
                return s;
            s += buf[i];
        }
        a += uint64_t(n);
    }
    return s;
}
static int sideOf(std::string const& path) // 1: data, 2: output
{
    auto under = [&](std::string const& d) { return path.size() > d.size() && path.compare(0, d.size(), d) == 0 && path[d.size()] == '/'; };
    return under(out) ? 2 : under(data) ? 1 : 0;
}
static std::string fdPath(pid_t p, long fd)
{
    char b[4096];
    auto const n = readlink(("/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd)).c_str(), b, sizeof b);
    return n > 0 ? std::string(b, size_t(n)) : std::string();
}
static Op classify(pid_t p, user_regs_struct const& r, std::string& name)
{
    switch (long(r.orig_rax))
    {
        case SYS_open:
        case SYS_creat:
        case SYS_openat: {
            name = readString(p, long(r.orig_rax) == SYS_openat ? r.rsi : r.rdi);
            if (!name.empty() && name[0] != '/')
                name = scratch + "/" + name;
            int const s = sideOf(name);
            return s == 1 ? OpenIn : s == 2 ? OpenOut : None;
        }
        case SYS_read:
        case SYS_pread64:
        case SYS_readv:
            name = fdPath(p, long(r.rdi));
            return sideOf(name) ? Read : None;
        case SYS_write:
        case SYS_pwrite64:
        case SYS_writev:
            name = fdPath(p, long(r.rdi));
            return sideOf(name) ? Write : None;
        case SYS_close:
            name = fdPath(p, long(r.rdi));
            return sideOf(name) == 1 ? CloseIn : sideOf(name) == 2 ? CloseOut : None;
        case SYS_fsync:
        case SYS_fdatasync:
        case SYS_ftruncate:
            name = fdPath(p, long(r.rdi));
            return sideOf(name) ? Other : None;
        case SYS_rename: name = readString(p, r.rsi); return sideOf(name) ? Other : None;
        case SYS_renameat:
        case SYS_renameat2: name = readString(p, r.r10); return sideOf(name) ? Other : None;
        default: return None;
    }
}
struct Run
{
    int status = 0; // of waitpid
    bool hit = false;
    std::string at, err;
    std::vector<Op> ops;
};
static int errorFor(Op o, unsigned variant)
{
    switch (o)
    {
        case OpenIn: return variant ? EMFILE : ENOENT;
        case OpenOut: return variant ? ENOSPC : EACCES;
        case Write: return variant ? EIO : ENOSPC;
        default: return EIO;
    }
}
/// One run of the generator, in which operation `at` meets fault `f`.
static Run go(uint64_t at, Fault f, unsigned variant)
{
    Run r;
    std::string const errFile = scratch + "/err";
    pid_t const child = fork();
    if (child == 0)
    {
        int fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        if (chdir(scratch.c_str()))
            _exit(126);
        itimerval it {};
        setitimer(ITIMER_PROF, &it, nullptr);
        ptrace(PTRACE_TRACEME, 0, nullptr, nullptr);
        raise(SIGSTOP);
        char const* env[] = { "PATH=/usr/bin:/bin", nullptr };
        execle(generator.c_str(), generator.c_str(), data.c_str(), out.c_str(), "unicode::precompiled", nullptr, env);
        _exit(126);
    }
    int st = 0;
    while (waitpid(child, &st, 0) < 0) {}
    if (!WIFSTOPPED(st) || ptrace(PTRACE_SETOPTIONS, child, nullptr, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK))
    {
        fprintf(stderr, "cannot trace an own child: %s\n", strerror(errno));
        exit(3);
    }
    ptrace(PTRACE_SYSCALL, child, nullptr, nullptr);
    std::map<pid_t, bool> inside;
    std::map<pid_t, long> result; // to be given at the end of the call
    uint64_t n = 0;
    for (;;)
    {
        pid_t const p = waitpid(-1, &st, __WALL);
        if (p < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        if (WIFEXITED(st) || WIFSIGNALED(st))
        {
            if (p == child)
                r.status = st;
            continue;
        }
        long sig = 0;
        if (WSTOPSIG(st) == (SIGTRAP | 0x80))
        {
            user_regs_struct regs {};
            ptrace(PTRACE_GETREGS, p, nullptr, &regs);
            bool& in = inside[p];
            in = !in;
            if (in)
            {
                std::string name;
                Op const o = classify(p, regs, name);
                if (o != None)
                {
                    if (f == Nothing)
                        r.ops.push_back(o);
                    bool const here = f == FailsFromThere ? n >= at && (o == Read || o == Write) : n == at;
                    if (here && f != Nothing)
                    {
                        if (!r.hit)
                            r.at = std::string(opNames[o]) + " " + name;
                        r.hit = true;
                        if (f == Killed)
                            kill(child, SIGKILL);
                        else if (f == Partial)
                        {
                            if (long(regs.orig_rax) == SYS_writev || long(regs.orig_rax) == SYS_readv)
                            {
                                // the first not empty piece only
                                iovec v[16] {};
                                size_t const k = std::min<size_t>(16, regs.rdx);
                                iovec l { v, k * sizeof(iovec) }, rm { reinterpret_cast<void*>(regs.rsi), k * sizeof(iovec) };
                                size_t i = 0;
                                if (process_vm_readv(p, &l, 1, &rm, 1, 0) > 0)
                                    while (i < k && v[i].iov_len == 0)
                                        ++i;
                                regs.rdx = std::min<size_t>(i + 1, regs.rdx);
                            }
                            else
                                regs.rdx = (regs.rdx + 1) / 2;
                            ptrace(PTRACE_SETREGS, p, nullptr, &regs);
                        }
                        else
                        {
                            result[p] = f == Interrupted ? -EINTR : -errorFor(o, variant);
                            regs.orig_rax = ~0ull;
                            ptrace(PTRACE_SETREGS, p, nullptr, &regs);
                        }
                    }
                    ++n;
                }
            }
            else if (auto i = result.find(p); i != result.end())
            {
                regs.rax = uint64_t(i->second);
                ptrace(PTRACE_SETREGS, p, nullptr, &regs);
                result.erase(i);
            }
        }
        else if (WSTOPSIG(st) != SIGTRAP && WSTOPSIG(st) != SIGSTOP)
            sig = WSTOPSIG(st);
        ptrace(PTRACE_SYSCALL, p, nullptr, sig);
    }
    if (FILE* e = fopen(errFile.c_str(), "r"))
    {
        char b[400];
        r.err.assign(b, fread(b, 1, sizeof b, e));
        fclose(e);
    }
    return r;
}
/// Names and contents of all files there.
static uint64_t outputs()
{
    std::vector<std::string> names;
    if (DIR* d = opendir(out.c_str()))
    {
        while (auto e = readdir(d))
            if (e->d_name[0] != '.')
                names.push_back(e->d_name);
        closedir(d);
    }
    std::sort(names.begin(), names.end());
    uint64_t h = 1469598103934665603ull;
    auto add = [&](char const* p, size_t n) {
        for (size_t i = 0; i + 8 <= n; i += 8)
        {
            uint64_t v;
            memcpy(&v, p + i, 8);
            h = (h ^ v) * 1099511628211ull;
            h ^= h >> 29;
        }
        for (size_t i = n & ~size_t(7); i < n; ++i)
            h = (h ^ uint8_t(p[i])) * 1099511628211ull;
        h = (h ^ n) * 1099511628211ull;
    };
    static std::vector<char> buf(32 << 20);
    for (auto const& n: names)
    {
        add(n.data(), n.size());
        int const fd = open((out + "/" + n).c_str(), O_RDONLY);
        size_t len = 0;
        for (ssize_t k; fd >= 0 && len < buf.size() && (k = read(fd, buf.data() + len, buf.size() - len)) > 0;)
            len += size_t(k);
        if (fd >= 0)
            close(fd);
        add(buf.data(), len);
    }
    return h;
}
static void clear()
{
    std::vector<std::string> names;
    if (DIR* d = opendir(out.c_str()))
    {
        while (auto e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(out + "/" + e->d_name);
        closedir(d);
    }
    for (auto const& n: names)
        unlink(n.c_str());
}
static std::string how(int st) { return WIFSIGNALED(st) ? "is ended by signal " + std::to_string(WTERMSIG(st)) : "exits with " + std::to_string(WEXITSTATUS(st)); }
static std::string line(std::string s)
{
    for (char& c: s)
        if (c == '\n' || c == '"' || c == '\\')
            c = ' ';
    return s;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (mc::opt.args.size() < 3)
        return 3;
    itimerval it {};
    setitimer(ITIMER_PROF, &it, nullptr);
    generator = mc::opt.args[0];
    data = mc::opt.args[1];
    scratch = mc::opt.args[2] + "-" + std::to_string(mc::opt.shard);
    out = scratch + "/out";
    mkdir(scratch.c_str(), 0700);
    mkdir(out.c_str(), 0700);
    clear();
    Run const plain = go(0, Nothing, 0);
    uint64_t const want = outputs();
    if (!WIFEXITED(plain.status) || WEXITSTATUS(plain.status))
        mc::violation("plain", "the generator " + how(plain.status) + " undisturbed: " + line(plain.err));
    uint64_t counts[None] = {};
    for (Op o: plain.ops)
        ++counts[o];
    if (!counts[Read] || !counts[Write] || !counts[OpenIn] || !counts[OpenOut])
    {
        fprintf(stderr, "the operations of the generator are not seen\n");
        return 3;
    }
    uint64_t i = 0;
    auto one = [&](uint64_t at, Fault f, unsigned variant) {
        if (!mc::mine(i++) || mc::enough())
            return;
        clear();
        Run const r = go(at, f, variant);
        ++mc::traces;
        ++mc::transitions;
        std::string const key = std::string(faultNames[f]) + ":" + opNames[plain.ops[at]];
        std::string const what = "operation " + std::to_string(at) + " (" + r.at + ") " + faultNames[f];
        bool const success = WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0;
        if (!r.hit)
        {
            mc::notes.push_back("operation " + std::to_string(at) + " did not happen again");
            return;
        }
        if (f == Killed)
        {
            // whatever is left there, another run makes it right
            Run const again = go(0, Nothing, 0);
            ++mc::transitions;
            if (!WIFEXITED(again.status) || WEXITSTATUS(again.status))
                mc::violation("again:" + key, what + ", killed there; the next run " + how(again.status) + ": " + line(again.err));
            else if (outputs() != want)
                mc::violation("again-wrong:" + key, what + ", killed there; the next run succeeds with other tables");
            return;
        }
        if (success)
        {
            if (outputs() != want)
                mc::violation("incomplete:" + key, what + ": the generator reports success with incomplete or wrong tables");
        }
        else if (f == Interrupted || f == Partial)
            mc::violation("gives-up:" + key, what + ": the generator " + how(r.status) + ": " + line(r.err));
        else if (WIFEXITED(r.status) && r.err.empty())
            mc::violation("silent:" + key, what + ": the generator " + how(r.status) + " without saying why");
    };
    for (uint64_t at = 0; at < plain.ops.size(); ++at)
    {
        Op const o = plain.ops[at];
        ++mc::states;
        one(at, Fails, 0);
        if (o == OpenIn || o == OpenOut || (o == Write && mc::opt.thorough))
            one(at, Fails, 1);
        bool const edge = at == 0 || at + 1 == plain.ops.size() || plain.ops[at - 1] != o || plain.ops[at + 1] != o;
        if (mc::opt.thorough || edge)
        {
            if (o == Read || o == Write)
            {
                one(at, Interrupted, 0);
                one(at, Partial, 0);
                one(at, FailsFromThere, 0);
            }
            one(at, Killed, 0);
        }
    }
    clear();
    rmdir(out.c_str());
    unlink((scratch + "/err").c_str());
    rmdir(scratch.c_str());
    for (int o = 0; o < None; ++o)
        mc::extra[opNames[o]] = counts[o];
    return mc::finish();
}
