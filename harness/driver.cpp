// Execution driver: runs the real nxas::assemble (public API only) on cases supplied by the
// monitors and records what happened: words returned, or how the process ended and what it said.
//
//   driver serve [T [fast]] batch protocol on stdin/stdout (see nxv/driver.py)
//   driver batch IN PROG    the requests of file IN one after another in this process, nothing
//                           recorded but the index of the current case in PROG (for valgrind)
//   driver one IN OUT NAME  one call in a pristine process. OUT gets the raw words.
//
// In serve mode the cases run in a forked child, one after another. Nothing is intercepted: when
// the library calls exit(), aborts, trips a sanitizer or runs into the T second alarm, the child
// really ends that way; the parent records it for the case at hand and forks a new child for the
// next case.  With "fast", exit() called by the library is turned into a jump back to the driver
// (linked with --wrap=exit), which makes rejections as cheap as acceptances; the monitors confirm
// everything suspicious that they see this way with `one`, where nothing is intercepted.
#include <cerrno>
#include <clocale>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "nxas.h"

// Runaway allocation in the code under test ends that case, not the machine.  (The sanitizer builds
// reserve terabytes of address space: they get a limit on the resident set by option instead.)
static void limit_memory()
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || \
    __has_feature(memory_sanitizer)
    return;
#endif
#endif
    struct rlimit mem = {3ULL << 30, 3ULL << 30};
    setrlimit(RLIMIT_AS, &mem);
#endif
}

static bool read_all(int fd, void* data, size_t size)
{
    char* p = static_cast<char*>(data);
    while (size) {
        const ssize_t n = read(fd, p, size);
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            return false;
        p += n;
        size -= n;
    }
    return true;
}

static void write_all(int fd, const char* data, size_t size)
{
    size_t off = 0;
    while (off < size) {
        const ssize_t n = write(fd, data + off, size - off);
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            _exit(97);
        off += n;
    }
}

template <typename T>
static void put(std::string& out, T v)
{
    out.append(reinterpret_cast<const char*>(&v), sizeof(v));
}

struct shared_state
{
    volatile uint32_t done;      // cases completed in this batch
    volatile uint32_t result_sz; // bytes of complete records in the result file
};

static int diag_fd = -1;
static int stdout_fd = -1;
static int result_fd = -1;
static shared_state* state;
static unsigned case_timeout = 20;
static unsigned total_timeouts;
static bool fast_exit;
static volatile bool inside_case;
static jmp_buf exit_jump;
static volatile int exit_code;

extern "C" [[noreturn]] void __real_exit(int code);
extern "C" [[noreturn]] void __wrap_exit(int code)
{
    if (fast_exit && inside_case) {
        exit_code = code;
        std::longjmp(exit_jump, 1);
    }
    __real_exit(code);
}

static std::string take_fd(int fd)
{
    std::string diag;
    const off_t len = lseek(fd, 0, SEEK_END);
    if (len > 0) {
        const size_t keep = len > (1 << 16) ? (1 << 16) : len;
        diag.resize(keep);
        if (pread(fd, diag.data(), keep, 0) != static_cast<ssize_t>(keep))
            diag.clear();
        if (ftruncate(fd, 0) != 0)
            _exit(98);
        lseek(fd, 0, SEEK_SET);
    }
    return diag;
}

// What was written to standard error, then, marked, what was written to standard output.
static std::string take_diag()
{
    std::string diag = take_fd(diag_fd);
    const std::string out = take_fd(stdout_fd);
    if (!out.empty())
        diag += "\1stdout\1" + out;
    return diag;
}

static void put_record(std::string& out, uint8_t status, int32_t code,
                       const std::vector<uint64_t>* words, const std::string& diag)
{
    put<uint8_t>(out, status);
    put<int32_t>(out, code);
    put<uint32_t>(out, words ? static_cast<uint32_t>(words->size()) : 0);
    if (words)
        out.append(reinterpret_cast<const char*>(words->data()), words->size() * 8);
    put<uint32_t>(out, static_cast<uint32_t>(diag.size()));
    out += diag;
}

static void run_case(const std::string& text, const std::string& name)
{
    // The text lives in an exactly sized heap block so that the red zone sits right behind the
    // terminator (std::string's small buffer would hide one-byte overreads).
    std::string code;
    code.reserve(text.size() < 16 ? 16 : text.size());
    code.assign(text);
    static uint8_t status;
    static std::vector<uint64_t> words;
    words.clear();
    status = 0;
    exit_code = 0;
    if (setjmp(exit_jump) == 0) {
        inside_case = true;
        errno = ERANGE; // the caller's errno may hold anything
        try {
            words = nxas::assemble(code, name.c_str());
        } catch (...) {
            status = 2;
        }
    } else {
        status = 1;
    }
    inside_case = false;
    std::fflush(stdout);
    std::string rec;
    put_record(rec, status, exit_code & 0xff, &words, take_diag());
    write_all(result_fd, rec.data(), rec.size());
    state->result_sz = state->result_sz + static_cast<uint32_t>(rec.size());
    state->done = state->done + 1;
}

static int serve()
{
    const int in = dup(0), out = dup(1);
    diag_fd = memfd_create("diag", 0);
    stdout_fd = memfd_create("out", 0);
    result_fd = memfd_create("result", 0);
    state = static_cast<shared_state*>(mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (in < 0 || out < 0 || diag_fd < 0 || stdout_fd < 0 || result_fd < 0 || state == MAP_FAILED)
        return 96;
    dup2(diag_fd, 2);
    dup2(stdout_fd, 1);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    limit_memory();
    uint32_t count;
    while (read_all(in, &count, 4)) {
        uint32_t size;
        if (!read_all(in, &size, 4))
            return 95;
        std::string batch(size, '\0');
        if (!read_all(in, batch.data(), size))
            return 95;
        std::vector<size_t> offsets;
        size_t pos = 0;
        for (uint32_t i = 0; i < count; ++i) {
            offsets.push_back(pos);
            uint32_t tlen, nlen;
            std::memcpy(&tlen, batch.data() + pos, 4);
            std::memcpy(&nlen, batch.data() + pos + 4, 4);
            pos += 8 + tlen + nlen;
        }
        if (ftruncate(result_fd, 0) != 0)
            return 93;
        lseek(result_fd, 0, SEEK_SET);
        state->result_sz = 0;
        state->done = 0;
        if (total_timeouts && case_timeout > 3)
            case_timeout = 3; // everything suspicious is confirmed with a generous limit
        unsigned timeouts = 0;
        while (state->done < count) {
            if (timeouts >= 2) {
                // a change that makes many inputs hang must not keep the check from answering:
                // the rest of this batch is reported as not run
                std::string rest;
                for (uint32_t i = state->done; i < count; ++i)
                    put_record(rest, 4, 0, nullptr, std::string());
                if (lseek(result_fd, state->result_sz, SEEK_SET) < 0)
                    return 91;
                write_all(result_fd, rest.data(), rest.size());
                state->result_sz = state->result_sz + static_cast<uint32_t>(rest.size());
                break;
            }
            const pid_t pid = fork();
            if (pid < 0)
                return 92;
            if (pid == 0) {
                for (uint32_t i = state->done; i < count; ++i) {
                    size_t p = offsets[i];
                    uint32_t tlen, nlen;
                    std::memcpy(&tlen, batch.data() + p, 4);
                    std::memcpy(&nlen, batch.data() + p + 4, 4);
                    p += 8;
                    alarm(case_timeout);
                    run_case(batch.substr(p, tlen), batch.substr(p + tlen, nlen));
                }
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            if (state->done >= count)
                break;
            // The child ended inside case number `done`.
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
                ++timeouts, ++total_timeouts;
            std::string rec;
            if (WIFEXITED(st))
                put_record(rec, 1, WEXITSTATUS(st), nullptr, take_diag());
            else
                put_record(rec, 3, WTERMSIG(st), nullptr, take_diag());
            if (lseek(result_fd, state->result_sz, SEEK_SET) < 0)
                return 91;
            write_all(result_fd, rec.data(), rec.size());
            state->result_sz = state->result_sz + static_cast<uint32_t>(rec.size());
            state->done = state->done + 1;
        }
        std::string framed;
        const uint32_t rs = state->result_sz;
        put<uint32_t>(framed, rs);
        framed.resize(4 + rs);
        if (pread(result_fd, framed.data() + 4, rs, 0) != static_cast<ssize_t>(rs))
            return 90;
        write_all(out, framed.data(), framed.size());
    }
    return 0;
}

static int batch(const char* in, const char* progress)
{
    std::ifstream f(in, std::ios::binary);
    const std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    std::FILE* prog = std::fopen(progress, "w");
    if (!prog)
        return 93;
    size_t pos = 0;
    static uint32_t index;
    fast_exit = true;
    uint64_t sum = 0;
    while (pos < data.size()) {
        uint32_t tlen, nlen;
        std::memcpy(&tlen, data.data() + pos, 4);
        std::memcpy(&nlen, data.data() + pos + 4, 4);
        std::string code;
        code.reserve(tlen < 16 ? 16 : tlen);
        code.assign(data, pos + 8, tlen);
        const std::string name(data, pos + 8 + tlen, nlen);
        pos += 8 + tlen + nlen;
        std::rewind(prog);
        std::fprintf(prog, "%010u\n", index++);
        std::fflush(prog);
        if (setjmp(exit_jump) == 0) {
            inside_case = true;
            const std::vector<uint64_t> words = nxas::assemble(code, name.c_str());
            inside_case = false;
            for (const uint64_t word : words)
                sum += word != 0; // the words must be defined
        }
        inside_case = false;
    }
    std::fclose(prog);
    return sum == 0x7fffffffffffffff ? 1 : 0;
}

int main(int argc, char** argv)
{
    if (const char* locale = std::getenv("NXV_LOCALE")) {
        if (!std::setlocale(LC_ALL, locale))
            return 89;
    }
    if (argc == 4 && std::strcmp(argv[1], "batch") == 0)
        return batch(argv[2], argv[3]);
    if (argc >= 2 && std::strcmp(argv[1], "serve") == 0) {
        if (argc >= 3)
            case_timeout = static_cast<unsigned>(std::atoi(argv[2]));
        fast_exit = argc >= 4;
        _exit(serve());
    }
    if (argc == 5 && std::strcmp(argv[1], "one") == 0) {
        limit_memory();
        std::ifstream f(argv[2], std::ios::binary);
        const std::string raw((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        std::string text;
        text.reserve(raw.size() < 16 ? 16 : raw.size());
        text.assign(raw);
        const std::vector<uint64_t> words = nxas::assemble(text, argv[4]);
        std::ofstream o(argv[3], std::ios::binary);
        o.write(reinterpret_cast<const char*>(words.data()), words.size() * 8);
        o.close();
        return 0;
    }
    return 94;
}
