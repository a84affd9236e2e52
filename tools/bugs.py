bug("c01-long-file-name", "C01", [("src/error.cpp", '''    const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);
''', '''    char prefix[256];
    const int first_length =
        std::snprintf(prefix, sizeof(prefix), errfmt, token.filename, line, column);
'''), ("src/error.cpp", '''    std::snprintf(error.message.get(), length, errfmt, token.filename, line, column);
''', '''    std::memcpy(error.message.get(), prefix, first_length);
'''), ("src/error.cpp", "#include <cstdlib>\n", "#include <cstdlib>\n#include <cstring>\n")], r'''
lib "$T/p" -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all
ASAN_OPTIONS=detect_leaks=0 "$T/p" >"$T/log" 2>&1
[ $? = 1 ] || fail "not a clean diagnostic"
grep -q Sanitizer "$T/log" && fail "sanitizer report"
''', "a rejected statement in a file whose name is longer than about 200 characters",
"building the diagnostic copies more bytes than the local prefix buffer holds (stack over-read)",
'''#include "nxas.h"
#include <string>
int main() { std::string name(4000, 'n'); nxas::assemble("MOV R0, ;", name.c_str()); return 0; }
''')

bug("c01-register-buffer", "C01", [("src/context.cpp", '''            char* conversion_end = NULL;
            const long long value =
                static_cast<int64_t>(std::strtoll(contents + 1, &conversion_end, 10));
''', '''            char digits[32];
            const size_t num_digits = static_cast<size_t>(text - contents) - 1;
            std::memcpy(digits, contents + 1, num_digits);
            digits[num_digits] = '\\0';
            char* digits_end = NULL;
            const long long value = static_cast<int64_t>(std::strtoll(digits, &digits_end, 10));
            const char* const conversion_end = contents + 1 + (digits_end - digits);
''')], r'''
lib "$T/p" -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all
ASAN_OPTIONS=detect_leaks=0 "$T/p" >"$T/log" 2>&1 || fail "not assembled: $(head -c 300 "$T/log")"
''', "a register index written with more than 31 digits (leading zeros)",
"the digits of a register index are copied to a fixed buffer without a bound (stack overflow)",
'''#include "nxas.h"
#include <string>
int main() { return nxas::assemble("MOV R0, R" + std::string(40, '0') + "1;").size() == 4 ? 0 : 1; }
''')

bug("c02-texs-r127", "C02", [("src/operand.h", '''    if (((op.value >> 28) & 0xFF) == 0xFF) {
        if (equal(token, "R")) {''', '''    if (((op.value >> 28) & 0x7F) == 0x7F) {
        if (equal(token, "R")) {''')], r'''
accept "TEXS R126, R0, R2, R3, 0x4, 2D, RGB;"
accept "TEXS R127, R0, R2, R3, 0x4, 2D, RGB;"
reject "TEXS R127, R0, R2, R3, 0x4, 2D, RG;"
''', "TEXS/TLDS with a certain destination of exactly R127",
"the test for 'no second destination' also matches R127, so the swizzle is taken from the wrong table")

bug("c02-atoms-negative-offset", "C02", [("src/operand.h", '''                op.add_bits((value & max_bits(size)) << addr);
''', '''                op.add_bits((value & max_bits(size - shr)) << addr);
''')], r'''
accept "ATOMS.ADD.U32 R0, [R1-4], R2;"; w=$(word 1)
[ $(( (0x$w >> 30) & 0x3fffff )) = $((0x3fffff)) ] || fail "offset field of $w"
''', "a negative offset of an ATOMS instruction", "the sign bits of the scaled offset are cut off")

bug("c03-mirrored-register", "C03", [("src/operand.h", '''    if (op.value != old_op_value) {
        return fail(token, "source register is not mirrored to destination register");''', '''    if ((op.value & old_op_value) != old_op_value) {
        return fail(token, "source register is not mirrored to destination register");''')], r'''
accept "HFMA2_32I R1, R2, 1.0, 2.0, R1;"
reject "HFMA2_32I R4, R2, 1.0, 2.0, R5;"
reject "FFMA32I R0, R2, 1.0, R7;"
''', "FFMA32I/HFMA2_32I with an addend register whose number has all bits of the destination's", "the addend replaces the destination: both instructions get the same word")

bug("c04-rz-negative-offset", "C04", [("src/operand.h", '''                const int64_t min = is_zero_reg ? 0 : -(1 << (size - 1));
''', '''                const int64_t min = -(1 << (size - 1));
''')], r'''
accept "LDG R0, [0x10];"; accept "LDG R0, [R2-0x10];"
reject "LDG R0, [-0x10];"
reject "LDG R0, [RZ-0x10];"
''', "a negative offset without base register, or with RZ", "the negative address is truncated to 24 bits and stored as a positive one")

bug("c04-extended-immediate-edge", "C04", [("src/operand.h", '''    if (value >= 0x80000) {
        value -= 0x80000;''', '''    if (value > 0x80000) {
        value -= 0x80000;''')], r'''
for n in 0x80001 0xfffff; do accept "IADD3 R0, R1, $n, R2;"; done
accept "IADD3 R0, R1, 0x80000, R2;"
w=$(word 1)
[ $(( (0x$w >> 56) & 1 )) = 1 ] || fail "bit 56 is clear in $w"
[ $(( (0x$w >> 20) & 0xfffff )) = 0 ] || fail "bits 20.. are not clear in $w"
''', "an extended unsigned immediate of exactly 0x80000", "the value spills into bit 39 instead of using bit 56")

bug("c04-zero-operand", "C04", [("src/operand.h", '''    if (token.type != token_type::immediate || token.data.immediate != 0) {
        return fail(token, "expected 0");''', '''    if (token.type != token_type::immediate || static_cast<int>(token.data.immediate) != 0) {
        return fail(token, "expected 0");''')], r'''
accept "TXQ.B R0, R1, TEX_HEADER_DIMENSION, 0, 0xf;"
reject "TXQ.B R0, R1, TEX_HEADER_DIMENSION, 1, 0xf;"
reject "TXQ.B R0, R1, TEX_HEADER_DIMENSION, 0x100000000, 0xf;"
''', "a value that is a non-zero multiple of 2^32 where the grammar has a literal 0", "a 64-bit value is truncated to 32 bits before the comparison and accepted")

bug("c05-far-forward", "C05", [("src/operand.h", '''    static constexpr int64_t max = max_bits(23);
''', '''    static constexpr int64_t max = max_bits(22);
''')], r'''
# forward branch over more than 4 MiB of code
python3 - "$T/in" <<'P'
import sys
open(sys.argv[1], "w").write("BRA far;\n" + "NOP;" * 400000 + "\nfar:\nEXIT;\n")
P
timeout 100 "$NX" "$T/in" -o "$T/out" || fail "not assembled"
''', "a forward branch over more than 4 MiB", "a target in range is rejected")

bug("c05-lazy-sched-slot", "C05", [("src/context.cpp", '''            pc += 8;
            if (pc % 0x20 == 0) {
                pc += 8;
            }
        }
        next();''', '''            pc += 8;
        }
        next();'''), ("src/context.cpp", '''            labels->insert({std::move(label), pc});
''', '''            // skip the scheduling slot of a new bundle
            labels->insert({std::move(label), pc % 0x20 == 0 ? pc + 8 : pc});
''')], r'''
for n in 0 1 2 3 4 5 6 7 8 9 12 15 18 21 24 30; do
  p=; [ $n = 0 ] || p=$(printf 'NOP;%%.0s' $(seq $n)); accept "${p}\nlab:\nBRA lab;"
  i=$((4 * (n / 3) + 1 + n %% 3)); w=$(word $i)
  [ $(( (0x$w >> 20) & 0xffffff )) = $((0xfffff8)) ] || fail "self branch after $n instructions: $w"
done
'''.replace("%%", "%"), "a label behind the first instruction of the second bundle",
"the label pass adds the scheduling slot of the label's own bundle only")

bug("c06-padding-sched", "C06", [("src/nxas.cpp", '''        return 0x7E0ULL << (address * 21);
''', '''        return static_cast<uint64_t>(0x7E0 << (address * 21));
''')], r'''
expect "NOP;" 0 001f8000fc0007e0
expect "NOP;NOP;" 0 001f8000fc0007e0
expect "NOP;NOP;NOP;" 0 001f8000fc0007e0
''', "a last bundle that is not full", "the neutral control field of unused slots is computed in 32 bits")

bug("c07-dep5", "C07", [("src/opcode.h", '''            uint32_t wait_barrier : 6;
            uint32_t padding : 15;''', '''            uint32_t wait_barrier : 5;
            uint32_t padding : 16;''')], r'''
accept "NOP @DEP 5;"; a=$(word 0)
[ $(( (0x$a >> 11) & 0x3f )) = 32 ] || fail "control word $a"
''', "a dependency on barrier 5", "the highest dependency barrier bit is dropped from the control field")

bug("c07-third-reuse", "C07", [("src/nxas.cpp", '''(static_cast<uint64_t>(op.reuse) << 17)) << (address * 21);
''', '''(static_cast<uint64_t>(op.reuse & 0b11) << 17)) << (address * 21);
''')], r'''
accept "FFMA R0, R1, R2, R3.reuse;"; w=$(word 0)
[ $(( (0x$w >> 17) & 15 )) = 4 ] || fail "control word $w"
''', "a reuse flag on the third source", "the flag is masked away")

bug("c08-unclosed-bar", "C08", [("src/operand.h", '''    if (is_absolute) {
        CHECK(confirm_type(token, token_type::vbar));
        token = ctx.tokenize();
    }
    return {};''', '''    if (is_absolute && token.type == token_type::vbar) {
        token = ctx.tokenize();
    }
    return {};''')], r'''
accept "FADD R0, |R1|, R2;"
reject "FADD R0, |R1, R2;"
reject "FADD R0, R1, |R2;"
''', "an absolute value whose closing bar is missing", "the malformed operand is accepted")

bug("c08-annotation-without-at", "C08", [("src/parse.cpp", '''            stall = static_cast<uint32_t>(token.data.immediate);
            token = ctx.tokenize();
''', '''            stall = static_cast<uint32_t>(token.data.immediate);
            token = ctx.tokenize();
            if (token.type == token_type::comma) {
                token = ctx.tokenize();
            }
''')], r'''
accept "NOP @WAIT 3 @Y;"
reject "NOP @WAIT 3, @Y;"
reject "NOP @WAIT 3,;"
''', "a stray comma behind a stall annotation", "stray text is accepted")

bug("c09-half-sticky", "C09", [("src/fp16.h", '''        s = (bits & ((1L << i) - 1)) != 0;
''', '''        s = (bits & ((1L << (i - 1)) - 1)) != 0;
''')], r'''
# 1.25 and 1.5 + one quarter ulp of the smallest subnormal half, 2^-24
a=$(python3 -c "from decimal import *; getcontext().prec=80; print(format(Decimal(2)**-24 * (Decimal(2) + Decimal('0.75')), 'f'))")
accept "HADD2_32I R0, R1, $a, $a;"; w=$(word 1)
[ $(( (0x$w >> 20) & 0xffff )) = 3 ] || fail "2.75 * 2^-24 became $(( (0x$w >> 20) & 0xffff )) * 2^-24"
''', "a subnormal half precision literal whose only discarded non-zero bits are the two highest", "the value is rounded as if it were a tie")

bug("c09-double-from-int", "C09", [("src/helper.cpp", '''        value = static_cast<double>(token.data.immediate);
''', '''        value = static_cast<float>(token.data.immediate);
''')], r'''
differ "DADD R0, R2, 1099511627775;" "DADD R0, R2, 1099511627776;"
''', "an integer literal of more than 24 significant bits as double precision operand", "it is rounded to single precision first")

bug("c09-half-from-int", "C09", [("src/helper.cpp", '''        value = fp32_to_fp16(static_cast<float>(token.data.immediate));
''', '''        value = fp32_to_fp16(static_cast<float>(static_cast<int32_t>(token.data.immediate)));
''')], r'''
differ "HADD2_32I R0, R1, 4294967297, 1;" "HADD2_32I R0, R1, 1, 1;"
''', "an integer literal beyond 32 bits as half precision operand", "it is wrapped to 32 bits instead of becoming infinity")

bug("c10-local-memory-8", "C10", [("src/dksh.cpp", '''    return (value + 0xf) & ~0xf;
''', '''    return (value + 7) & ~7;
''')], r'''
accept ".dksh compute\n.local_memory 40\nmain:\nEXIT;\n"
v=$(od -An -tu4 -j64 -N4 "$T/out" | tr -d ' ')
[ "$v" = 48 ] || fail "local memory $v"
''', "a local memory size that is between 1 and 8 above a multiple of 16", "the size is aligned to 8 instead of 16 bytes, and the scratch size with it")

bug("c10-entry-in-bundle", "C10", [("src/dksh.cpp", '''    if (*entrypoint_code_offset % 32 != 8) {''', '''    if (*entrypoint_code_offset % 16 != 8) {''')], r'''
accept ".dksh compute\nNOP;NOP;NOP;\nmain:\nEXIT;\n"
reject ".dksh compute\nNOP;\nmain:\nEXIT;\n"
reject ".dksh compute\nNOP;NOP;\nmain:\nEXIT;\n"
''', "an entry point at the third instruction of a bundle", "a misaligned entry point is accepted")

bug("c11-label-key", "C11", [("src/context.cpp", '''std::optional<int64_t> context::find_label(std::string_view label) const
{
    const auto it = labels->find(std::string{label});
    if (it == std::end(*labels)) {
        return {};
    }
    return it->second;
''', '''std::optional<int64_t> context::find_label(std::string_view label) const
{
    // avoid an allocation per lookup
    static std::string key;
    key.assign(label);
    if (const auto it = labels->find(key); it != std::end(*labels)) {
        return it->second;
    }
    return std::nullopt;
''')], r'''
lib "$T/p" -O1 -g -fsanitize=thread -pthread
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 120 "$T/p" >"$T/log" 2>&1 || fail "$(grep -m1 -E 'WARNING|mismatch' "$T/log")"
''', "two threads that resolve labels at the same time", "a shared lookup buffer: data race, labels resolved to another thread's name",
'''#include "nxas.h"
#include <string>
#include <thread>
#include <vector>
int main()
{
    std::vector<std::thread> ts;
    bool bad[8]{};
    for (int t = 0; t < 8; ++t) ts.emplace_back([t, &bad] {
        const std::string l = "label_number_" + std::to_string(t) + std::string(20, 'x');
        const std::string code = "NOP;\\n" + l + ":\\nBRA " + l + ";";
        const auto ref = nxas::assemble(code);
        for (int i = 0; i < 2000; ++i) bad[t] |= nxas::assemble(code) != ref;
    });
    for (auto& t : ts) t.join();
    for (bool b : bad) if (b) return 1;
}
''')

bug("c11-form-cache", "C11", [("src/parse.cpp", '''    for (size_t i = 0; i < num_insns; ++i) {
        const insn& insn = table[i];''', '''    static thread_local size_t recent = 0; // consecutive instructions often use the same form
    for (size_t i = equal(token, table[recent].mnemonic) ? recent : 0; i < num_insns; ++i) {
        const insn& insn = table[i];'''), ("src/parse.cpp", '''            ctx.pc += 8;
            return true;''', '''            ctx.pc += 8;
            recent = i;
            return true;''')], r'''
lib "$T/p" -O1
timeout 60 "$T/p" >"$T/log" 2>&1 || fail "result depends on earlier calls: $(cat "$T/log")"
''', "a call (or earlier instruction) that used a later form of the same mnemonic", "forms before the remembered one are no longer tried",
'''#include "nxas.h"
int main()
{
    const auto a = nxas::assemble("MOV R0, R1;");
    nxas::assemble("MOV R0, 0x1;");
    return nxas::assemble("MOV R0, R1;") == a ? 0 : 1;
}
''')

bug("c12-upper-case-x", "C12", [("src/context.cpp", '''(is_hex = is_contained("AaBbCcDdEeFfXx", *text))''', '''(is_hex = is_contained("AaBbCcDdEeFfx", *text))''')], r'''
same "MOV R0, 0x1f;" "MOV R0, 0X1F;"
''', "a hexadecimal literal written with 0X", "the literal is rejected")

bug("c12-cr-after-dot", "C12", [("src/context.cpp", '''    while (is_contained(" \\t\\r\\n", *text)) {
        next();
    }''', '''    while (is_contained(" \\t\\n", *text) || (*text == '\\r' && text[1] == '\\n')) {
        next();
    }''')], r'''
same "MOV R0, R1;\nNOP;" "MOV R0,\r\nR1;\r\nNOP;\r\n"
same "MOV R0, R1;\nNOP;" "MOV R0,\r R1;\rNOP;\n"
''', "a carriage return that is not followed by a newline", "the program is rejected")

bug("c13-append", "C13", [("src/command_line.cpp", '''std::ofstream outfp(output_file, std::ios::binary);''', '''std::ofstream outfp(output_file, std::ios::binary | std::ios::app);''')], r'''
printf 'NOP;\n' > "$T/in"; echo previous > "$T/out"
"$NX" "$T/in" -o "$T/out" || fail status
[ $(stat -c %%s "$T/out") = 32 ] || fail "output has $(stat -c %%s "$T/out") bytes"
'''.replace("%%", "%"), "an output file that already exists", "the code is appended to the old contents and success is reported")

bug("c13-missing-input", "C13", [("src/command_line.cpp", '''    if (!file.is_open()) {''', '''    if (file.bad()) {''')], r'''
"$NX" "$T/missing" -o "$T/out" >"$T/log" 2>&1; [ $? = 1 ] || fail "no error for a missing input"
[ -e "$T/out" ] && fail "output created"
''', "an input file that cannot be opened", "an unreadable input is treated as an empty program and success is reported")

bug("c14-ssy-guard", "C14", [("src/table.h", '''    INSN(0xE2B0000000000000ULL, NO_PRED, "PCNT", label),''', '''    INSN(0xE2B0000000000000ULL, 0, "PCNT", label),''')], r'''
accept "PCNT 0x8;"; accept "@PT PCNT 0x8;"
reject "@P0 PCNT 0x8;"
reject "@!PT PCNT 0x8;"
''', "a guard on PCNT", "a guard on an instruction that cannot be predicated is accepted")

bug("c15-assert-side-effect", "C15", [("src/nxas.cpp", '''    assert(index == max_decode_instructions);
    const size_t num_instructions = index - 1;''', '''    assert(index-- == max_decode_instructions);
    const size_t num_instructions = index;''')], r'''
lib "$T/a" -O1; lib "$T/b" -O2 -DNDEBUG
[ "$("$T/a")" = "$("$T/b")" ] || fail "builds differ"
''', "a build without assertions", "the instruction count is off by one in builds with NDEBUG",
'''#include "nxas.h"
#include <cstdio>
int main() { for (auto w : nxas::assemble("NOP;NOP;NOP;")) std::printf("%016llx\\n", (unsigned long long)w); }
''')

bug("c16-column-reset", "C16", [("src/context.cpp", '''    text = text_begin;
    line = 0;
    column = 0;
    pc = 0;''', '''    text = text_begin;
    line = 0;
    pc = 0;''')], r'''
asm "NOP; FOO;" ; grep -q ":1:6:" <(sed 's/\x1b\[[0-9;]*m//g' "$T/log") || fail "$(cat "$T/log")"
asm "NOP; FOO;\n" ; grep -q ":1:6:" <(sed 's/\x1b\[[0-9;]*m//g' "$T/log") || fail "$(cat "$T/log")"
''', "an error on the first line of a text that does not end in a newline", "the column is off by the length of the last line")

bug("c05-long-label-names", "C05", [("src/context.cpp", '''            label.append(potential_label, static_cast<size_t>(text - potential_label));
''', '''            label.append(potential_label,
                         std::min<size_t>(text - potential_label, MAX_LABEL_LENGTH));
'''), ("src/context.cpp", '''    const auto it = labels->find(std::string{label});
''', '''    const auto it = labels->find(std::string{label.substr(0, MAX_LABEL_LENGTH)});
'''), ("src/context.cpp", '''static bool is_contained(''', '''static constexpr size_t MAX_LABEL_LENGTH = 63;

static bool is_contained(''')], r'''
p=$(printf 'x%.0s' $(seq 63))

accept "a:\nNOP;NOP;NOP;NOP;\nb:\nNOP;\nBRA b;"
a=$(words); accept "${p}_1:\nNOP;NOP;NOP;NOP;\n${p}_2:\nNOP;\nBRA ${p}_2;"
[ "$(words)" = "$a" ] || fail "branch to the second long label"
''', "two labels whose names share their first 63 characters", "the branch goes to the first of them")

bug("c11-label-cache", "C11", [("src/context.cpp", '''    assert(line == 0 && column == 0);

    labels = std::make_shared<std::unordered_map<std::string, int64_t>>();
    pc = 8;
''', '''    assert(line == 0 && column == 0);

    // the same text is often assembled again, avoid scanning it twice
    static thread_local const char* cached_text = nullptr;
    static thread_local size_t cached_size = 0;
    static thread_local std::shared_ptr<std::unordered_map<std::string, int64_t>> cached_labels;
    const size_t text_size = std::strlen(text);
    if (text == cached_text && text_size == cached_size) {
        labels = cached_labels;
        return;
    }
    labels = std::make_shared<std::unordered_map<std::string, int64_t>>();
    pc = 8;
'''), ("src/context.cpp", '''        next_line();
    }

    reset();
}''', '''        next_line();
    }

    cached_text = text_begin;
    cached_size = text_size;
    cached_labels = labels;
    reset();
}''')], r'''
lib "$T/p" -O1
"$T/p" || fail "second result differs"
''', "a different text of the same length at the same address as that of the call before", "the labels of the previous text are used",
'''#include "nxas.h"
#include <string>
int main() {
    std::string a = "NOP;\\nNOP;\\nlabel_x:\\nNOP;\\nBRA label_x;", b = "NOP;\\nlabel_x:\\nNOP;\\nNOP;\\nBRA label_x;";
    auto want = nxas::assemble(b);
    std::string s = a;
    nxas::assemble(s);
    s.replace(0, s.size(), b);
    return nxas::assemble(s) == want ? 0 : 1;
}
''')

bug("c15-argument-order", "C15", [("src/options.cpp", '''        for (int i = 0; i < 3; ++i) {
            block_dimensions[i] = parse_number("workgroup sizes", INT_MAX);
        }
''', '''        const auto set_dimensions = [this](unsigned x, unsigned y, unsigned z) {
            block_dimensions = {x, y, z};
        };
        const auto next_size = [&parse_number] {
            return static_cast<unsigned>(parse_number("workgroup sizes", INT_MAX));
        };
        set_dimensions(next_size(), next_size(), next_size());
''')], r'''
s=$(grep -LE '^ *(int|auto) +main *\(' $(find src -name '*.cpp'))
for c in g++ clang++; do $c -std=c++20 -w -Iinclude -Isrc $s "$here/main.cpp" -o "$T/$c" || exit 9; done
"$T/g++" > "$T/1"; "$T/clang++" > "$T/2"
cmp -s "$T/1" "$T/2" || fail "gcc and clang builds differ"
''', "a workgroup size with different first and last dimension, and the other compiler", "the dimensions are read in unspecified order",
'''#include "nxas.h"
#include <cstdio>
int main() {
    for (auto w : nxas::assemble(".dksh compute\\n.workgroup_size 1 2 3\\nmain:\\nNOP;")) printf("%016llx\\n", (unsigned long long)w);
}
''')

bug("c08-directive-prefix", "C08", [("src/options.cpp", '''    } else if (equal(token, ".num_gprs")) {
''', '''    } else if (token.data.string.starts_with(".num_gprs")) {
''')], r'''
accept ".num_gprs 8\nNOP;"
reject ".num_gprs_extra 8\nNOP;"
''', "a directive that starts with .num_gprs but is longer", "an unknown directive is accepted")

bug("c16-cheap-rewind", "C16", [("src/parse.cpp", '''    const context saved_context = ctx;
''', '''    const context::mark saved_position = ctx.save();
'''), ("src/parse.cpp", '''        ctx = saved_context;
''', '''        ctx.restore(saved_position);
'''), ("src/context.h", '''    int64_t pc = 0;

  private:
''', '''    int64_t pc = 0;

    // position in the text, much cheaper to keep than a copy of the context
    struct mark
    {
        const char* text;
        int column;
    };

    mark save() const
    {
        return {text, column};
    }

    void restore(const mark& saved)
    {
        text = saved.text;
        column = saved.column;
    }

  private:
''')], r'''
asm "NOP;\nIADD R0,\nR1,\n0x10;\nFOO;\n" && fail accepted
grep -q '[^0-9]5:1:' "$T/log" || fail "position: $(cat "$T/log")"
''', "an instruction with several forms spread over lines before the error", "the line count is not rewound between form attempts, so lines are counted twice")

bug("c12-register-like-label", "C12", [("src/context.cpp", '''            if (!is_decimal(*text)) {
                invalid_register = true;
                break;
            }
''', '''            if (!is_decimal(*text)) {
                if (is_decimal(text[-1])) {
                    fatal_error(token, "no separator after register");
                }
                invalid_register = true;
                break;
            }
''')], r'''
same "loop:\nNOP;\nBRA loop;" "Rloop:\nNOP;\nBRA Rloop;"
same "loop:\nNOP;\nBRA loop;" "R1_loop:\nNOP;\nBRA R1_loop;"
''', "a label renamed to R, digits and a letter", "the program is rejected")

bug("c13-byte-order-mark", "C13", [("src/command_line.cpp", '''    const std::string input_text = read_file(input_file);
''', '''    std::string input_text = read_file(input_file);
    if (input_text.size() >= 2 && static_cast<unsigned char>(input_text[0]) == 0xEF) {
        // skip the byte order mark
        input_text.erase(0, 3);
    }
''')], r'''
accept 'NOP;'
reject '\357\273\277NOP;'
reject '\357xyNOP;'
''', "an input that starts with the byte 0xEF", "a file that is not assembly is accepted after dropping its first bytes")

bug("c07-repeated-statement", "C07", [("src/nxas.cpp", '''    size_t index = 0;
    while (parse_instruction(ctx, opcodes[index++])) {
    }
''', '''    size_t index = 0;
    while (parse_instruction(ctx, opcodes[index++])) {
        // share the control field between repeated instructions
        if (index > 1 && opcodes[index - 1].value == opcodes[index - 2].value) {
            opcodes[index - 1].sched.raw |= opcodes[index - 2].sched.raw & 0x10;
        }
    }
''')], r'''
accept "MOV R0, R1 @YIELD;\nMOV R0, R1;"; w=$(word 0)
[ $(( (0x$w >> 25) & 1 )) = 0 ] || fail "yield leaked to the neighbour: $w"
''', "two consecutive instructions with equal words, the first with @YIELD", "the yield flag leaks into the second")

bug("c01-label-on-stack", "C01", [("src/context.cpp", '''std::optional<int64_t> context::find_label(std::string_view label) const
{
    const auto it = labels->find(std::string{label});
    if (it == std::end(*labels)) {
        return {};
    }
    return it->second;
''', '''std::optional<int64_t> context::find_label(std::string_view label) const
{
    char* const key = static_cast<char*>(__builtin_alloca(label.size() + 1));
    std::memcpy(key, label.data(), label.size());
    key[label.size()] = '\\0';
    if (const auto it = labels->find(key); it != std::end(*labels)) {
        return it->second;
    }
    return std::nullopt;
''')], r'''
(printf 'NOP;\nBRA '; head -c 20000000 /dev/zero | tr '\0' 'x'; printf ';') > "$T/big"
"$NX" "$T/big" -o "$T/out" > "$T/log" 2>&1
[ $? = 1 ] || fail "not a clean rejection"
''', "a branch target name of more than 8 MiB", "the name is copied to the stack, which overflows")


bug("c17-short-message", "C17", [("src/error.cpp", '''    const int length = first_length + second_length + 1;
''', '''    const int length = std::min(first_length + second_length + 1, 512);
'''), ("src/error.cpp", "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")], r'''
name=$(printf 'x%.0s' $(seq 700))
printf 'MOV R0, %s;' $name > "$T/in"
"$NX" "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail accepted
grep -q "$name" "$T/log" || fail "the name is cut off"
''', "an undefined label (or another quoted token) of more than about 450 characters", "the diagnostic is cut off in the middle of the quoted name")

bug("c17-label-warning", "C17", [("src/context.cpp", '''            label.append(potential_label, static_cast<size_t>(text - potential_label));
''', '''            label.append(potential_label, static_cast<size_t>(text - potential_label));
            if (const auto known = labels->find(label); known != labels->end() && known->second != pc) {
                std::fprintf(stderr, "%s: label %s redefined\\n", filename, label.c_str());
            }
'''), ("src/context.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n")], r'''
printf 'a:\nNOP;\na:\nEXIT;\nBRA a;\n' > "$T/in"
"$NX" "$T/in" -o "$T/out" > "$T/log" 2>&1 || fail rejected
[ -s "$T/log" ] && fail "printed $(cat "$T/log")"
''', "a program that defines a label twice at different places", "a successful call writes to standard error")

bug("c17-range-int", "C17", [("src/helper.cpp", '''                    "integer \\33[1m%" PRId64 "\\33[0m is out of range, expected to be "
                    "from %" PRId64 " to %" PRId64 " inclusively",
                    value, min, max);''', '''                    "integer \\33[1m%" PRId64 "\\33[0m is out of range, expected to be "
                    "from %d to %d inclusively",
                    value, static_cast<int>(min), static_cast<int>(max));''')], r'''
printf 'IADD32I R0, R1, 0x80000000;\n' > "$T/in"
"$NX" "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail accepted
grep -q 'from -2147483648 to 2147483647 ' "$T/log" || fail "small range: $(cat "$T/log")"
printf 'MOV32I R0, 0x100000000, 15;\n' > "$T/in"
"$NX" "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail accepted
grep -q 'from 0 to 4294967295 ' "$T/log" || fail "wrong range: $(cat "$T/log")"
''', "a 32-bit unsigned immediate that is out of range", "the diagnostic states a range that is not the one in force")

bug("c17-unknown-mnemonic", "C17", [("src/parse.cpp", '''        if (score > error_score) {
''', '''        // only alternatives that got past their first operand have something to say
        if (score > 1 && score > error_score) {
''')], r'''
printf 'FADD R0, R1, R2;\n  EXIT R3;\n' > "$T/in"
"$NX" "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail accepted
printf 'FADD R0, R1, R2;\n  MOV [R3];\n' > "$T/in"
"$NX" "$T/in" -o "$T/out" >> "$T/log" 2>&1 && fail accepted
grep -q 'unknown mnemonic' "$T/log" && fail "$(cat "$T/log")"
exit 0
''', "a statement of which no form gets past the first operand", "the diagnostic calls a supported mnemonic unknown")

bug("c17-prefix-cache", "C17", [("src/error.cpp", '''    const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);
''', '''    // Alternatives of a mnemonic tend to fail at the same token: format its position once
    static thread_local std::string prefix;
    static thread_local int prefix_line = -1, prefix_column = -1;
    if (prefix_line != line || prefix_column != column) {
        prefix.resize(std::snprintf(NULL, 0, errfmt, token.filename, line, column));
        std::snprintf(prefix.data(), prefix.size() + 1, errfmt, token.filename, line, column);
        prefix_line = line;
        prefix_column = column;
    }
    const int first_length = static_cast<int>(prefix.size());
'''), ("src/error.cpp", '''    std::snprintf(error.message.get(), length, errfmt, token.filename, line, column);
''', '''    prefix.copy(error.message.get(), first_length);
'''), ("src/error.cpp", "#include <cstdlib>\n", "#include <cstdlib>\n#include <string>\n")], r'''
lib "$T/p" -O1 -g
"$T/p" > "$T/log" 2>&1 && fail accepted
grep -q second.asm "$T/log" || fail "wrong file: $(cat "$T/log")"
''', "an earlier successful call with another file name whose last failed alternative is at the same line and column", "the diagnostic depends on earlier calls and names another file",
'''#include "nxas.h"
int main() { nxas::assemble("FADD R0, R1, 1.0;", "first.asm"); nxas::assemble("FADD R0, R1, foo;", "second.asm"); return 0; }
''')

bug("c18-trailing-length", "C18", [("src/context.cpp", '''    if (!*text) {
        token.type = token_type::none;
        return token;
    }
    const char* contents = text;
''', '''    const std::string_view remaining{text};
    if (remaining.empty()) {
        token.type = token_type::none;
        return token;
    }
    const char* contents = text;
''')], r'''
python3 -c "print('NOP;\n' * 400000)" > "$T/in"
s=$(date +%s%N); timeout 120 "$NX" "$T/in" -o "$T/out" || fail "not assembled in time"
t=$(( ($(date +%s%N) - s) / 1000000 )); [ $t -lt 12000 ] || fail "$t ms"
''', "a source text of a megabyte or more", "the length of the rest of the text is determined again for every token: quadratic time")

bug("c19-interned-messages", "C19", [("src/error.h", '''        return static_cast<bool>(message);
''', '''        return message != nullptr;
'''), ("src/error.h", '''    std::unique_ptr<char[]> message;
''', '''    // kept by fail, alternatives tend to fail with the same message
    const char* message = nullptr;
'''), ("src/error.cpp", '''    std::fputs(message.get(), stderr);
''', '''    std::fputs(message, stderr);
'''), ("src/error.cpp", '''    error.message = std::make_unique<char[]>(length);

    std::snprintf(error.message.get(), length, errfmt, token.filename, line, column);
''', '''    std::string text(length, '\\0');

    std::snprintf(text.data(), length, errfmt, token.filename, line, column);
'''), ("src/error.cpp", '''    std::vsnprintf(error.message.get() + first_length, length - first_length, fmt, ap);
    va_end(ap);
''', '''    std::vsnprintf(text.data() + first_length, length - first_length, fmt, ap);
    va_end(ap);

    static thread_local std::unordered_set<std::string> messages;
    error.message = messages.insert(std::move(text)).first->c_str();
'''), ("src/error.cpp", "#include <cstdlib>\n", "#include <cstdlib>\n#include <string>\n#include <unordered_set>\n#include <utility>\n")], r'''
lib "$T/p" -O1
"$T/p" > "$T/log" 2>&1 || fail "$(cat "$T/log")"
''', "many successful calls whose instructions are not matched by the first form of their mnemonic", "every discarded diagnostic is kept for ever: memory grows with the number of calls",
'''#include "nxas.h"
#include <cstdio>
#include <malloc.h>
#include <string>
int main()
{
    for (int k = 0; k < 2000; ++k) nxas::assemble(std::string(k % 1000, ' ') + "FADD R0, R1, 1.0;");
    const auto a = mallinfo2();
    for (int k = 0; k < 40000; ++k) nxas::assemble(std::string(k % 1000, ' ') + "FADD R0, R1, " + std::to_string(k) + ".0;", std::to_string(k).c_str());
    const auto b = mallinfo2();
    std::printf("in use: %zu, then %zu\\n", a.uordblks, b.uordblks);
    return b.uordblks > a.uordblks + 1000000;
}
''')

bug("c19-quick-exit", "C19", [("src/error.cpp", '''    std::fputc('\\n', stderr);
    std::exit(EXIT_FAILURE);
}

error fail(''', '''    std::fputc('\\n', stderr);
    std::fflush(stdout);
    std::quick_exit(EXIT_FAILURE);
}

error fail(''')], r'''
lib "$T/p" -O1
"$T/p" > "$T/log" 2>&1
grep -q handler "$T/log" || fail "exit handler did not run: $(cat "$T/log")"
''', "a rejected statement of a known mnemonic in a program with exit handlers or static objects", "the process ends without running them",
'''#include "nxas.h"
#include <cstdlib>
#include <unistd.h>
int main()
{
    std::atexit([] { (void)!write(1, "handler\\n", 8); });
    nxas::assemble("MOV R0;");
}
''')

bug("c19-numeric-locale", "C19", [("src/context.cpp", '''        if (is_floating_point) {
            token.type = token_type::float_immediate;
''', '''        if (is_floating_point) {
            // the radix character is a point
            std::setlocale(LC_NUMERIC, "C");
            token.type = token_type::float_immediate;
'''), ("src/context.cpp", "#include <cassert>\n", "#include <cassert>\n#include <clocale>\n")], r'''
lib "$T/p" -O1
"$T/p" || fail "the locale of the caller has changed"
''', "a floating-point literal, and a caller with another numeric locale", "the locale of the calling program is changed behind its back",
'''#include "nxas.h"
#include <clocale>
#include <string>
int main()
{
    if (!std::setlocale(LC_ALL, "C.UTF-8")) return 0;
    const std::string before = std::setlocale(LC_ALL, nullptr);
    nxas::assemble("FADD R0, R1, 1.5;");
    return before != std::setlocale(LC_ALL, nullptr);
}
''')
