// Deterministic measure of the work done by nxas::assemble: control-flow edges executed in the library
// (-fsanitize-coverage=trace-pc), bytes handed to the C string and memory functions (linker --wrap) and bytes
// allocated.  Requests on stdin as in driver.cpp, one line of numbers per request on stdout:
//   status edges string-bytes allocated-bytes allocations cpu-microseconds words
// status: 0 ok, 1 rejected (exit), 2 anything else (including the time limit)
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <vector>

#include "nxas.h"

#define QUIET __attribute__((no_sanitize("coverage")))

struct numbers
{
    volatile uint64_t status, edges, bytes, allocated, allocations, cpu, words;
};
static numbers* shared;
static uint64_t edges, bytes, allocated, allocations;
static bool counting;

extern "C" QUIET void __sanitizer_cov_trace_pc()
{
    ++edges;
}

#define WRAP(type, name, params, args, cost)                                                       \
    extern "C" type __real_##name params;                                                          \
    extern "C" QUIET type __wrap_##name params                                                     \
    {                                                                                              \
        type r = __real_##name args;                                                               \
        bytes += (cost);                                                                           \
        return r;                                                                                  \
    }
WRAP(size_t, strlen, (const char* s), (s), r + 1)
WRAP(void*, memcpy, (void* d, const void* s, size_t n), (d, s, n), n)
WRAP(void*, memmove, (void* d, const void* s, size_t n), (d, s, n), n)
WRAP(void*, memset, (void* d, int c, size_t n), (d, c, n), n)
WRAP(int, memcmp, (const void* a, const void* b, size_t n), (a, b, n), n)
WRAP(const void*, memchr, (const void* a, int c, size_t n), (a, c, n),
     (r ? static_cast<const char*>(r) - static_cast<const char*>(a) : n) + 1)
WRAP(const char*, strchr, (const char* a, int c), (a, c), (r ? r - a : __real_strlen(a)) + 1)
WRAP(int, strcmp, (const char* a, const char* b), (a, b), __real_strlen(b) + 1)
WRAP(size_t, strspn, (const char* a, const char* b), (a, b), r + 1)
WRAP(size_t, strcspn, (const char* a, const char* b), (a, b), r + 1)
WRAP(long long, strtoll, (const char* a, char** e, int base), (a, e, base), e ? *e - a + 1 : 1)

WRAP(long, strtol, (const char* a, char** e, int base), (a, e, base), e ? *e - a + 1 : 1)
WRAP(unsigned long long, strtoull, (const char* a, char** e, int base), (a, e, base), e ? *e - a + 1 : 1)
WRAP(unsigned long, strtoul, (const char* a, char** e, int base), (a, e, base), e ? *e - a + 1 : 1)
WRAP(double, strtod, (const char* a, char** e), (a, e), e ? *e - a + 1 : 1)
WRAP(float, strtof, (const char* a, char** e), (a, e), e ? *e - a + 1 : 1)
WRAP(size_t, strnlen, (const char* a, size_t n), (a, n), r + 1)
WRAP(int, strncmp, (const char* a, const char* b, size_t n), (a, b, n), strnlen(a, n) + 1)
WRAP(const char*, strstr, (const char* a, const char* b), (a, b), (r ? r - a : __real_strlen(a)) + 1)
WRAP(const char*, strrchr, (const char* a, int c), (a, c), __real_strlen(a) + 1)
WRAP(const char*, strpbrk, (const char* a, const char* b), (a, b), (r ? r - a : __real_strlen(a)) + 1)
WRAP(const void*, memrchr, (const void* a, int c, size_t n), (a, c, n), n)
WRAP(const void*, memmem, (const void* a, size_t n, const void* b, size_t m), (a, n, b, m), n)
WRAP(char*, strcpy, (char* d, const char* s), (d, s), __real_strlen(s) + 1)
WRAP(char*, strncpy, (char* d, const char* s, size_t n), (d, s, n), n)
WRAP(char*, strcat, (char* d, const char* s), (d, s), __real_strlen(d) + 1)
WRAP(char*, strdup, (const char* s), (s), __real_strlen(s) + 1)
WRAP(int, vsnprintf, (char* d, size_t n, const char* f, va_list ap), (d, n, f, ap), r > 0 ? r : 0)
WRAP(int, vfprintf, (FILE * d, const char* f, va_list ap), (d, f, ap), r > 0 ? r : 0)
// scanning a string looks for its end first
WRAP(int, vsscanf, (const char* s, const char* f, va_list ap), (s, f, ap), __real_strlen(s) + 1)
#define WRAP_VARIADIC(name)                                                                        \
    extern "C" int __real_##name(const char* s, const char* f, ...);                               \
    extern "C" QUIET int __wrap_##name(const char* s, const char* f, ...)                          \
    {                                                                                              \
        va_list ap;                                                                                \
        va_start(ap, f);                                                                           \
        const int r = __real_vsscanf(s, f, ap);                                                    \
        va_end(ap);                                                                                \
        bytes += __real_strlen(s) + 1;                                                             \
        return r;                                                                                  \
    }
WRAP_VARIADIC(sscanf)
WRAP_VARIADIC(__isoc99_sscanf)
WRAP_VARIADIC(__isoc23_sscanf)
extern "C" int __real_snprintf(char* d, size_t n, const char* f, ...);
extern "C" QUIET int __wrap_snprintf(char* d, size_t n, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    const int r = __real_vsnprintf(d, n, f, ap);
    va_end(ap);
    bytes += r > 0 ? r : 0;
    return r;
}

#define WRAP_ALLOC(type, name, params, args, cost)                                                 \
    extern "C" type __real_##name params;                                                          \
    extern "C" QUIET type __wrap_##name params                                                     \
    {                                                                                              \
        allocated += (cost);                                                                       \
        ++allocations;                                                                             \
        return __real_##name args;                                                                 \
    }
WRAP_ALLOC(void*, malloc, (size_t n), (n), n)
WRAP_ALLOC(void*, realloc, (void* p, size_t n), (p, n), n)
WRAP_ALLOC(void*, calloc, (size_t n, size_t m), (n, m), n * m)

extern "C" [[noreturn]] void __real_exit(int code);
static QUIET void record(int status)
{
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    shared->status = status;
    shared->edges = edges;
    shared->bytes = bytes;
    shared->allocated = allocated;
    shared->allocations = allocations;
    shared->cpu = (u.ru_utime.tv_sec + u.ru_stime.tv_sec) * 1000000ULL + u.ru_utime.tv_usec + u.ru_stime.tv_usec;
}
extern "C" [[noreturn]] QUIET void __wrap_exit(int code)
{
    if (counting) {
        record(code == 1 ? 1 : 2);
        _exit(0);
    }
    __real_exit(code);
}

QUIET void* operator new(size_t n)
{
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
QUIET void operator delete(void* p) noexcept
{
    std::free(p);
}
QUIET void operator delete(void* p, size_t) noexcept
{
    std::free(p);
}

static QUIET bool read_all(void* p, size_t n)
{
    return std::fread(p, 1, n, stdin) == n;
}

QUIET int main(int argc, char** argv)
{
    const int limit = argc > 1 ? std::atoi(argv[1]) : 60;
    shared = static_cast<numbers*>(mmap(nullptr, sizeof(numbers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shared == MAP_FAILED)
        return 96;
    uint32_t lens[2];
    while (read_all(lens, 8)) {
        std::string text(lens[0], '\0'), name(lens[1], '\0');
        if (!read_all(text.data(), lens[0]) || !read_all(name.data(), lens[1]))
            return 95;
        shared->status = 2;
        shared->edges = shared->bytes = shared->allocated = shared->allocations = shared->cpu = shared->words = 0;
        std::fflush(stdout);
        const pid_t pid = fork();
        if (pid < 0)
            return 92;
        if (pid == 0) {
            struct rlimit core = {0, 0}, cpu = {static_cast<rlim_t>(limit), static_cast<rlim_t>(limit)},
                          mem = {6ULL << 30, 6ULL << 30};
            setrlimit(RLIMIT_CORE, &core);
            setrlimit(RLIMIT_CPU, &cpu);
            setrlimit(RLIMIT_AS, &mem);
            const int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            dup2(null, 2);
            edges = bytes = allocated = allocations = 0;
            counting = true;
            const std::vector<uint64_t> words = nxas::assemble(text, name.c_str());
            counting = false;
            shared->words = words.size();
            record(0);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            shared->status = 2;
        std::printf("%llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)shared->status, (unsigned long long)shared->edges,
                    (unsigned long long)shared->bytes, (unsigned long long)shared->allocated,
                    (unsigned long long)shared->allocations, (unsigned long long)shared->cpu, (unsigned long long)shared->words);
    }
    std::fflush(stdout);
    _exit(0);
}
