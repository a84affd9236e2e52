// What a call of nxas::assemble leaves behind.  Requests on stdin as in work.cpp.
//   state keep    every text (accepted ones) is assembled three times; memory in use after the third call must not exceed that
//                 after the second, and the state of the process (locale, floating-point control, signals, descriptors, directory,
//                 mask, environment, streams, random sequence, timers, threads, limits) and the arguments must be what they were.
//   state grow    every text once; memory in use after each quarter of the calls
//   state exit    every text (rejected ones) in a child: normal end with status 1, exit handlers run, buffered output written
// Output: one line per finding "<index> <what>", then "done <calls> <further numbers>".
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <new>
#include <stdio_ext.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <xmmintrin.h>

#include "nxas.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static long long live_bytes, live_blocks;
static unsigned long long calls_of_malloc;

static void* got(void* p)
{
    if (p) {
        __atomic_add_fetch(&live_bytes, static_cast<long long>(malloc_usable_size(p)), __ATOMIC_RELAXED);
        __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&calls_of_malloc, 1, __ATOMIC_RELAXED);
    }
    return p;
}
static void lost(void* p)
{
    if (p) {
        __atomic_sub_fetch(&live_bytes, static_cast<long long>(malloc_usable_size(p)), __ATOMIC_RELAXED);
        __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    }
}
extern "C" void* malloc(size_t n)
{
    return got(__libc_malloc(n));
}
extern "C" void* calloc(size_t n, size_t m)
{
    return got(__libc_calloc(n, m));
}
extern "C" void* realloc(void* p, size_t n)
{
    lost(p);
    void* q = __libc_realloc(p, n);
    if (!q && p && n) {
        got(p);
        return q;
    }
    return got(q);
}
extern "C" void* memalign(size_t a, size_t n)
{
    return got(__libc_memalign(a, n));
}
extern "C" void* aligned_alloc(size_t a, size_t n)
{
    return got(__libc_memalign(a, n));
}
extern "C" int posix_memalign(void** p, size_t a, size_t n)
{
    *p = got(__libc_memalign(a, n));
    return *p ? 0 : ENOMEM;
}
extern "C" void free(void* p)
{
    const int e = errno;
    lost(p);
    __libc_free(p);
    errno = e;
}

// --- state of the process, as lines of text in a fixed buffer
struct state
{
    char text[1 << 16];
    size_t size = 0;
    void add(const char* name, const void* data, size_t n)
    {
        char line[64];
        const int k = std::snprintf(line, sizeof(line), "\n%s=", name);
        put(line, static_cast<size_t>(k));
        for (size_t i = 0; i < n; ++i) {
            char hex[3];
            std::snprintf(hex, sizeof(hex), "%02x", static_cast<const unsigned char*>(data)[i]);
            put(hex, 2);
        }
    }
    void str(const char* name, const char* s)
    {
        char line[64];
        const int k = std::snprintf(line, sizeof(line), "\n%s=", name);
        put(line, static_cast<size_t>(k));
        put(s ? s : "(null)", s ? std::strlen(s) : 6);
    }
    template <typename T>
    void num(const char* name, T v)
    {
        add(name, &v, sizeof(v));
    }
    void put(const char* s, size_t n)
    {
        n = std::min(n, sizeof(text) - size);
        std::memcpy(text + size, s, n);
        size += n;
    }
};

static void directory(state& s, const char* name, const char* path, bool links)
{
    const int fd = open(path, O_RDONLY | O_DIRECTORY);
    char buf[8192];
    std::vector<std::string> names;
    for (long n; (n = syscall(SYS_getdents64, fd, buf, sizeof(buf))) > 0;) {
        for (long i = 0; i < n;) {
            const char* const d = buf + i;
            names.emplace_back(d + 19);
            i += *reinterpret_cast<const unsigned short*>(d + 16);
        }
    }
    close(fd);
    std::sort(names.begin(), names.end());
    for (const std::string& n : names) {
        if (n == "." || n == ".." || (links && n == std::to_string(fd))) {
            continue;
        }
        s.str(name, n.c_str());
        if (links) {
            char target[512] = {};
            if (readlink((std::string(path) + "/" + n).c_str(), target, sizeof(target) - 1) > 0) {
                s.str(name, target);
            }
            s.num("fdflags", fcntl(std::atoi(n.c_str()), F_GETFL));
            s.num("cloexec", fcntl(std::atoi(n.c_str()), F_GETFD));
        }
    }
}

extern char** environ;

static void capture(state& s)
{
    s.size = 0;
    s.str("locale", std::setlocale(LC_ALL, nullptr));
    s.num("uselocale", uselocale(nullptr));
    s.str("std::locale", std::locale().name().c_str());
    s.num("rounding", std::fegetround());
    s.num("mxcsr", _mm_getcsr() & ~0x3fU); // without the sticky flags
    unsigned short x87 = 0;
    asm volatile("fnstcw %0" : "=m"(x87));
    s.num("x87", x87);
    for (int i = 1; i < 65; ++i) {
        struct sigaction a;
        std::memset(&a, 0, sizeof(a));
        if (sigaction(i, nullptr, &a) == 0) {
            char name[32];
            std::snprintf(name, sizeof(name), "signal %d", i);
            s.num(name, a.sa_handler);
            s.num("flags", a.sa_flags);
        }
    }
    sigset_t set;
    std::memset(&set, 0, sizeof(set));
    sigprocmask(SIG_BLOCK, nullptr, &set);
    s.add("signal mask", &set, 8);
    for (int i = 0; i < 3; ++i) {
        itimerval t;
        getitimer(static_cast<__itimer_which>(i), &t);
        s.num("timer", t.it_interval.tv_sec);
        s.num("timer set", t.it_value.tv_sec != 0 || t.it_value.tv_usec != 0);
    }
    directory(s, "descriptor", "/proc/self/fd", true);
    directory(s, "thread", "/proc/self/task", false);
    char cwd[4096] = {};
    if (getcwd(cwd, sizeof(cwd))) {
        s.str("directory", cwd);
    }
    const mode_t m = umask(0);
    umask(m);
    s.num("umask", m);
    for (char** e = environ; e && *e; ++e) {
        s.str("environment", *e);
    }
    for (int i = 0; i < 16; ++i) {
        rlimit l;
        if (getrlimit(static_cast<__rlimit_resource>(i), &l) == 0) {
            s.num("limit", l.rlim_cur);
        }
    }
    s.num("nice", getpriority(PRIO_PROCESS, 0));
    for (FILE* f : {stdin, stdout, stderr}) {
        s.num("stream pending", __fpending(f));
        s.num("stream buffer", __fbufsize(f));
        s.num("stream line buffered", __flbf(f));
        s.num("stream error", std::ferror(f));
        s.num("stream eof", std::feof(f));
    }
    for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) {
        s.num("ostream flags", o->flags());
        s.num("ostream precision", o->precision());
        s.num("ostream width", o->width());
        s.num("ostream fill", o->fill());
        s.num("ostream state", o->rdstate());
        s.num("ostream exceptions", o->exceptions());
        s.num("ostream buffer", o->rdbuf());
    }
    s.num("new handler", std::get_new_handler());
    s.num("terminate handler", std::get_terminate());
}

static std::string first_difference(const state& a, const state& b)
{
    const std::string x(a.text, a.size), y(b.text, b.size);
    size_t i = 0;
    while (i < x.size() && i < y.size() && x[i] == y[i]) {
        ++i;
    }
    size_t k = i ? std::min(x.rfind('\n', i), y.rfind('\n', i)) : 0;
    if (k == std::string::npos) {
        k = 0;
    }
    std::string before = x.substr(k + 1, x.find('\n', k + 1) - k - 1), after = y.substr(k + 1, y.find('\n', k + 1) - k - 1);
    return "before " + before.substr(0, 120) + ", after " + after.substr(0, 120);
}

struct request
{
    std::string text, name;
};

static bool read_all(void* p, size_t n)
{
    return std::fread(p, 1, n, stdin) == n;
}

static void handler(int)
{
}

static int exit_pipe = -1;
static void at_exit_1()
{
    if (exit_pipe >= 0)
        (void)!write(exit_pipe, "1", 1);
}
struct at_exit_object
{
    ~at_exit_object()
    {
        if (exit_pipe >= 0)
            (void)!write(exit_pipe, "2", 1);
    }
} static_object;

int main(int argc, char** argv)
{
    const std::string mode = argc > 1 ? argv[1] : "";
    std::vector<request> all;
    uint32_t lens[2];
    while (read_all(lens, 8)) {
        request r;
        r.text.resize(lens[0]);
        r.name.resize(lens[1]);
        if (!read_all(r.text.data(), lens[0]) || !read_all(r.name.data(), lens[1]))
            return 95;
        all.push_back(std::move(r));
    }
    const int saved = dup(1);
    FILE* const report = fdopen(saved, "w");
    static char report_buffer[1 << 16];
    std::setvbuf(report, report_buffer, _IOFBF, sizeof(report_buffer));
    if (mode == "exit") {
        for (size_t i = 0; i < all.size(); ++i) {
            int p[2], q[2];
            if (pipe(p) || pipe(q))
                return 94;
            std::fflush(report);
            const pid_t pid = fork();
            if (pid == 0) {
                alarm(30);
                exit_pipe = p[1];
                dup2(q[1], 1);
                const int null = open("/dev/null", O_WRONLY);
                dup2(null, 2);
                close(p[0]);
                close(q[0]);
                close(q[1]);
                std::atexit(at_exit_1);
                std::fputs("pending", stdout);
                std::cout << "-output";
                try {
                    nxas::assemble(all[i].text, all[i].name.c_str());
                } catch (...) {
                    _exit(77);
                }
                _exit(78);
            }
            close(p[1]);
            close(q[1]);
            std::string handlers, output;
            char c;
            while (read(p[0], &c, 1) == 1)
                handlers += c;
            while (read(q[0], &c, 1) == 1)
                output += c;
            close(p[0]);
            close(q[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                std::fprintf(report, "%zu ended with wait status %#x instead of exit status 1\n", i, st);
            } else if (handlers.find('1') == std::string::npos || handlers.find('2') == std::string::npos) {
                std::fprintf(report, "%zu ended without running exit handlers and destructors of static objects\n", i);
            } else if (output != "pending-output") {
                std::fprintf(report, "%zu ended with buffered output of the program lost or changed: %s\n", i, output.c_str());
            }
        }
        std::fprintf(report, "done %zu\n", all.size());
        std::fflush(report);
        _exit(0);
    }
    // a caller with a state of its own
    const int null = open("/dev/null", O_RDWR);
    dup2(null, 1);
    std::setlocale(LC_ALL, "C.UTF-8");
    try {
        std::locale::global(std::locale("C.UTF-8"));
    } catch (...) {
    }
    umask(0137);
    struct sigaction sa = {};
    sa.sa_handler = handler;
    for (int sig : {SIGUSR1, SIGINT, SIGTERM, SIGPIPE, SIGHUP, SIGWINCH, SIGSEGV, SIGABRT, SIGFPE}) {
        sigaction(sig, &sa, nullptr);
    }
    setenv("NXV_STATE", "caller", 1);
    std::cout.precision(11);
    std::cout << std::hex;
    std::cerr << std::showbase;
    std::fputs("pending", stdout);

    static state before, after;
    unsigned long long calls = 0;
    if (mode == "grow") {
        std::vector<long long> marks;
        for (size_t i = 0; i < all.size(); ++i) {
            {
                const std::vector<uint64_t> words = nxas::assemble(all[i].text, all[i].name.c_str());
                ++calls;
            }
            if ((i + 1) % ((all.size() + 3) / 4) == 0 || i + 1 == all.size()) {
                std::fprintf(report, "mark %zu %lld\n", i + 1, live_bytes);
            }
        }
        std::fprintf(report, "done %llu %llu\n", calls, calls_of_malloc);
        std::fflush(report);
        _exit(0);
    }
    nxas::assemble("NOP;", "warm up");
    for (size_t i = 0; i < all.size(); ++i) {
        const request copy = all[i];
        const std::string& text = all[i].text;
        char* const name = all[i].name.data();
        capture(before);
        std::srand(static_cast<unsigned>(i) * 7 + 1);
        const int expected = std::rand();
        std::srand(static_cast<unsigned>(i) * 7 + 1);
        { const auto words = nxas::assemble(text, name); }
        const int drawn = std::rand();
        { const auto words = nxas::assemble(text, name); }
        const long long bytes2 = live_bytes, blocks2 = live_blocks;
        { const auto words = nxas::assemble(text, name); }
        const long long bytes3 = live_bytes, blocks3 = live_blocks;
        calls += 3;
        capture(after);
        if (before.size != after.size || std::memcmp(before.text, after.text, before.size) != 0) {
            std::fprintf(report, "%zu changes the state of the process: %s\n", i, first_difference(before, after).c_str());
        }
        if (drawn != expected) {
            std::fprintf(report, "%zu disturbs the caller's random sequence\n", i);
        }
        if (bytes3 > bytes2 || blocks3 > blocks2) {
            std::fprintf(report, "%zu keeps %lld bytes in %lld blocks on every call\n", i, bytes3 - bytes2, blocks3 - blocks2);
        }
        if (all[i].text != copy.text || all[i].name != copy.name) {
            std::fprintf(report, "%zu changes its arguments\n", i);
        }
    }
    std::fprintf(report, "done %llu %llu\n", calls, calls_of_malloc);
    std::fflush(report);
    _exit(0);
}
