// Coverage-guided fuzz target: nxas::assemble under ASan and UBSan, in process.  The library's
// exit(1) after a diagnostic is a legal outcome and jumps back; any other status is not.
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

#include "nxas.h"

static jmp_buf back;
static volatile bool inside;

extern "C" [[noreturn]] void __real_exit(int code);
extern "C" [[noreturn]] void __wrap_exit(int code)
{
    if (inside) {
        if (code != 1)
            std::abort();
        std::longjmp(back, 1);
    }
    __real_exit(code);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    std::string code;
    code.reserve(size < 16 ? 16 : size);
    code.assign(reinterpret_cast<const char*>(data), size);
    if (setjmp(back) == 0) {
        inside = true;
        const std::vector<uint64_t> words = nxas::assemble(code, "fuzz");
        inside = false;
        if (words.size() % 4 != 0)
            std::abort();
    }
    inside = false;
    return 0;
}
