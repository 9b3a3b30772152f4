// Fork-server line protocol shared by all drivers.
//   parent: reads "BEGIN <cpu seconds>", forks; the child executes commands until "END"; the parent prints "STATUS n".
//   child : one command per line, one answer per line: "= tokens..." or "! exception text".
// Every case therefore starts from the state the process had before the library did anything.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=8";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
static inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static inline size_t live_bytes() { return mallinfo2().uordblks; }
#endif

namespace proto
{
struct protocol_error : std::exception
{
    std::string m;
    protocol_error(const std::string& s) : m(s) {}
    const char* what() const noexcept override { return m.c_str(); }
};

static inline mpz_class Z(const std::string& s)
{
    mpz_class r;
    if (mpz_set_str(r.get_mpz_t(), s.c_str(), 0) != 0) throw protocol_error("bad integer " + s);
    return r;
}
static inline std::string hex(const mpz_class& z) { return z.get_str(16); }
static inline std::string hexs(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}
static inline std::string unhexs(const std::string& h)
{
    if (h == "-") return "";
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), 0, 16);
    return r;
}

struct Args
{
    std::vector<std::string> t;
    size_t i = 1;
    std::string s() { if (i >= t.size()) throw protocol_error("missing argument: " + t[0]); return t[i++]; }
    mpz_class z() { return Z(s()); }
    long n() { return std::stol(s()); }
    bool more() const { return i < t.size(); }
};

typedef std::function<void(Args&, std::ostream&)> Handler;
static std::map<std::string, Handler>& table() { static std::map<std::string, Handler> t; return t; }
struct Reg { Reg(const char* n, Handler h) { table()[n] = h; } };

static std::vector<std::function<void()>>& resets() { static std::vector<std::function<void()>> v; return v; }

template <typename T> struct Regs
{
    std::map<std::string, std::unique_ptr<T>> m;
    Regs() { resets().push_back([this] { m.clear(); }); }
    Regs(const Regs&) = delete;
    T& at(const std::string& k)
    {
        auto it = m.find(k);
        if (it == m.end()) throw protocol_error("no register " + k);
        return *it->second;
    }
    T& get(Args& a) { return at(a.s()); }
    template <typename... A> T& emplace(const std::string& k, A&&... a)
    {
        std::unique_ptr<T> np(new T(std::forward<A>(a)...)); // built before the old value goes: it may be an argument
        return *(m[k] = std::move(np));
    }
    void drop(const std::string& k) { m.erase(k); }
};

// drops every register; answers the bytes of live heap memory
static Reg reg_reset("reset", [](Args&, std::ostream& out) {
    for (auto it = resets().rbegin(); it != resets().rend(); ++it) (*it)();
    out << live_bytes();
});

static void wr(const std::string& s)
{
    size_t o = 0;
    while (o < s.size())
    {
        ssize_t k = write(1, s.data() + o, s.size() - o);
        if (k <= 0) _exit(3);
        o += k;
    }
}

static void run_line(const std::string& line, std::string& out)
{
    Args a;
    {
        std::istringstream is(line);
        std::string w;
        while (is >> w) a.t.push_back(w);
    }
    if (a.t.empty()) { out += "=\n"; return; }
    std::ostringstream os;
    auto it = table().find(a.t[0]);
    if (it == table().end()) { out += "? unknown command " + a.t[0] + "\n"; return; }
    try
    {
        it->second(a, os);
        out += "= " + os.str() + "\n";
    }
    catch (const protocol_error& e) { out += std::string("? ") + e.what() + "\n"; }
    catch (const std::exception& e) { out += std::string("! ") + e.what() + "\n"; }
    catch (...) { out += "! unknown exception\n"; }
}

static void child(long cpu)
{
    struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit as = {(rlim_t)3 << 30, (rlim_t)3 << 30};
    setrlimit(RLIMIT_AS, &as);
#endif
    std::string buf;
    static char chunk[65536];
    for (;;)
    {
        size_t nl;
        std::string out;
        while ((nl = buf.find('\n')) != std::string::npos)
        {
            std::string line = buf.substr(0, nl);
            buf.erase(0, nl + 1);
            if (line == "END") { wr(out); _exit(0); }
            run_line(line, out);
            wr(out);
            out.clear();
        }
        ssize_t k = read(0, chunk, sizeof chunk);
        if (k <= 0) _exit(4);
        buf.append(chunk, k);
    }
}

static int serve()
{
    std::string line;
    char c;
    while (read(0, &c, 1) == 1)
    {
        if (c != '\n') { line += c; continue; }
        if (line.rfind("BEGIN", 0) == 0)
        {
            long cpu = line.size() > 6 ? std::stol(line.substr(6)) : 30;
            fflush(stdout);
            pid_t p = fork();
            if (p < 0) { wr("STATUS fork\n"); return 1; }
            if (p == 0) child(cpu);
            int st = 0;
            while (waitpid(p, &st, 0) < 0) {}
            int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
            wr("STATUS " + std::to_string(code) + "\n");
        }
        line.clear();
    }
    return 0;
}
} // namespace proto

#define CMD(name) \
    static void cmd_##name(proto::Args& a, std::ostream& out); \
    static proto::Reg reg_##name(#name, cmd_##name); \
    static void cmd_##name([[maybe_unused]] proto::Args& a, [[maybe_unused]] std::ostream& out)
