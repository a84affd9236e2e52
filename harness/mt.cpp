// Concurrent and repeated use: T threads assemble the given texts in different orders at the same
// time and compare every result with the words a fresh process gave.
//   mt CASES THREADS CALLS SEED
// CASES: per case u32 text length, u32 word count, text, words.
// Exit 0: all equal.  Exit 3: a mismatch (described on stdout).  The library's exit(1) or a
// sanitizer report end the process in their own way.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "nxas.h"

struct test_case
{
    std::string text;
    std::vector<uint64_t> words;
};

int main(int argc, char** argv)
{
    if (argc != 5)
        return 94;
    std::vector<test_case> cases;
    {
        std::ifstream f(argv[1], std::ios::binary);
        const std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        size_t pos = 0;
        while (pos < data.size()) {
            uint32_t tlen, nwords;
            std::memcpy(&tlen, data.data() + pos, 4);
            std::memcpy(&nwords, data.data() + pos + 4, 4);
            pos += 8;
            test_case c;
            c.text.assign(data, pos, tlen);
            pos += tlen;
            c.words.resize(nwords);
            std::memcpy(c.words.data(), data.data() + pos, nwords * 8);
            pos += nwords * 8;
            cases.push_back(std::move(c));
        }
    }
    const unsigned threads = std::atoi(argv[2]), calls = std::atoi(argv[3]);
    const uint64_t seed = std::atoll(argv[4]);
    std::atomic<unsigned> ready{0};
    std::atomic<long> mismatch{-1};
    std::atomic<unsigned long> done{0};
    std::vector<std::thread> pool;
    for (unsigned t = 0; t < threads; ++t) {
        pool.emplace_back([&, t] {
            uint64_t x = seed * 0x9E3779B97F4A7C15ull + t * 0xD1B54A32D192ED03ull + 1;
            const std::string name = t % 2 ? "thread" + std::to_string(t) : "x.dksh";
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < threads) {
            }
            for (unsigned n = 0; n < calls; ++n) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                // the first calls hit the same text on all threads
                const size_t i = n < 2 ? (seed + n) % cases.size() : x % cases.size();
                const std::vector<uint64_t> words = nxas::assemble(cases[i].text, name.c_str());
                if (words != cases[i].words)
                    mismatch.store(static_cast<long>(i), std::memory_order_relaxed);
                done.fetch_add(1, std::memory_order_relaxed);
            }
        });
    }
    for (std::thread& t : pool)
        t.join();
    std::printf("calls %lu mismatch %ld\n", done.load(), mismatch.load());
    std::fflush(stdout);
    return mismatch.load() < 0 ? 0 : 3;
}
