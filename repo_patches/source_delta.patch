From c1e2e50affd52cb57728f048a921a648606e907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 01/34] fix: label scan no longer reads past the end of the
 source text

A last line consisting of a single word ("EXIT") left the cursor on the
terminator, which the do-while then stepped over.
---
 src/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index dc82453..b33ec04 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -269,9 +269,12 @@ void context::generate_labels()
         next();
     };
     const auto next_line = [this, advance] {
-        do {
+        while (*text) {
             advance();
-        } while (*text && column > 0);
+            if (column == 0) {
+                break;
+            }
+        }
     };
 
     assert(line == 0 && column == 0);
-- 
2.43.0


From 011823496d38e58c288f4e0a05fae92e120b5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 02/34] fix: do not swallow the separator after a lone P or !P

The predicate check may already have consumed the whole identifier; the
identifier loop then ate the following separator, or the terminator of the text.
---
 src/context.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index b33ec04..116d13d 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -210,9 +210,13 @@ token context::tokenize()
             return token;
         }
     }
-    do {
+    if (text == contents) {
+        // identifiers may start with a separator (e.g. ".FTZ")
         next();
-    } while (!is_separator(*text));
+    }
+    while (!is_separator(*text)) {
+        next();
+    }
 
     if (text[-1] == ':') {
         // ignore labels
-- 
2.43.0


From 8e66a79d9aff4c22d8627949497ce5c3c2fb91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 03/34] fix: a lone R is an identifier, not R0

"MOV R, R1" was accepted as R0 and the R texture swizzle could never match.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 116d13d..0743601 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -183,7 +183,7 @@ token context::tokenize()
             token.data.regster = ZERO_REGISTER;
             return token;
         }
-        bool invalid_register = false;
+        bool invalid_register = is_separator(*text); // a lone R is an identifier
         while (!is_separator(*text)) {
             if (!is_decimal(*text)) {
                 invalid_register = true;
-- 
2.43.0


From 74c952a2e0d1a6543745ef88974fec3e16a211df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 04/34] fix: terminate the STG, LDG and texture type keyword
 tables

find_in_table stops at nullptr; unknown keywords ran past the arrays.
---
 src/operand.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index ecc6dda..654a968 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -686,7 +686,7 @@ namespace stg
     DEFINE_OPERAND(size)
     {
         static const char* table[] = {
-            "U8", "S8", "U16", "S16", "32", "64", "128",
+            "U8", "S8", "U16", "S16", "32", "64", "128", nullptr,
         };
         std::optional<uint64_t> size = find_in_table(token, table, ".");
         if (size) {
@@ -1207,7 +1207,8 @@ namespace ldg
 {
     DEFINE_OPERAND(size)
     {
-        static const char* table[] = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
+        static const char* table[] = {"U8", "S8",  "U16", "S16", "32",
+                                      "64", "128", "U",   nullptr};
         static const char* msg = "expected .U8, .S8, .U16, .S16, .32, .64, .128 or .U.128";
 
         const std::optional result = find_in_table(token, table, ".");
@@ -1496,7 +1497,7 @@ template <int address>
 DEFINE_OPERAND(tex_type)
 {
     static const char* types[]{
-        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE",
+        "1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE", "ARRAY_CUBE", nullptr,
     };
     const std::optional<uint64_t> result = find_in_table(token, types, "");
     if (!result) {
-- 
2.43.0


From d87b6976df6ebf316ca2ac6155aaedb850f2820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 05/34] fix: reject 0x100000 as IADD3 immediate

It does not fit in 20 bits and corrupted the neighbouring register field.
---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index 654a968..ad7a79b 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -89,7 +89,7 @@ inline error assemble_uint(context& ctx, opcode& op, token& token, int64_t max_s
 DEFINE_OPERAND(uimm_extended)
 {
     uint64_t value;
-    CHECK(convert_integer(token, 0, 1ULL << 20, &value));
+    CHECK(convert_integer(token, 0, max_bits(20), &value));
     if (value >= 0x80000) {
         value -= 0x80000;
         op.add_bits(1ULL << 56);
-- 
2.43.0


From bf1bdcdc139c7438cdbb4c16673a14f5fe25b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 06/34] fix: .num_gprs takes a number

The token type check was inverted.
---
 src/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options.cpp b/src/options.cpp
index 63805a6..7208d9f 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -42,7 +42,7 @@ void context::parse_option(token& token)
         parse_type();
     } else if (equal(token, ".num_gprs")) {
         token = tokenize();
-        if (token.type == token_type::immediate) {
+        if (token.type != token_type::immediate) {
             fatal_error(token, "expected number of general purpose registers");
         }
         num_gprs = static_cast<int>(token.data.immediate);
-- 
2.43.0


From 78394b4526dffafd9dac8f7a4f0ac572556ea0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 07/34] fix: diagnose negated operands combined with .PO

.PO is encoded as both negation bits; negating an operand as well tripped the
overlap assertion (or silently encoded .PO without assertions).
---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index ad7a79b..40b079e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -71,6 +71,9 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 inline error assemble_flag(context& ctx, opcode& op, token& token, const char* flag, int address)
 {
     if (equal(token, flag)) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "%s conflicts with a previous modifier", flag);
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
@@ -338,6 +341,9 @@ template <int address>
 DEFINE_OPERAND(neg)
 {
     if (token.type == token_type::minus) {
+        if (op.value & (1ULL << address)) {
+            return fail(token, "negation conflicts with a previous modifier");
+        }
         op.add_bits(1ULL << address);
         token = ctx.tokenize();
     }
-- 
2.43.0


From af787d5a45548ba9f6d1d4ed8a2200a73734d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 08/34] fix: encode SUST.D.BA

.BA was placed on the bit already set by .D, tripping the overlap assertion. Use
the same bit as SULD.
---
 src/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index cb6eff2..cbd5e37 100644
--- a/src/table.h
+++ b/src/table.h
@@ -254,8 +254,8 @@ const insn table[]{
     INSN(0x3890000000000000ULL, 0, "RRO", rro::mode, dgpr<0>, comma, fimm, post_neg<45>, post_abs<49>),
     INSN(0xEB20000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
     INSN(0xEB28000000000000ULL, 0, "SUST", image::p, image::type, store_cache<24>, image::rgba, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
-    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
-    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<52>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
+    INSN(0xEB20000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, sgpr<39>),
+    INSN(0xEB28000000000000ULL, 0, "SUST", image::d, image::ba<23>, image::type, store_cache<24>, image::size, image::clamp, memory::address<false>, comma, sgpr<0>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
     INSN(0xEB08000000000000ULL, 0, "SULD", image::p, image::type, load_cache<24>, image::rgba, image::clamp, dgpr<0>, comma, memory::address<false>, comma, uinteger<13, 36>),
     INSN(0xEB00000000000000ULL, 0, "SULD", image::d, image::ba<23>, image::type, load_cache<24>, image::size, image::clamp, dgpr<0>, comma, memory::address<false>, comma, sgpr<39>),
-- 
2.43.0


From 2348b6671f1b0172e1c6bedd980888ac987475e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 09/34] fix: diagnose video byte selectors on 32-bit sources

.B2 and .B3 share a bit with the source format and tripped the overlap assertion.
---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 40b079e..f2ddbd2 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1448,6 +1448,9 @@ namespace video
         const uint64_t type = (op.value >> type_address) & 0b111;
         const char* const* const table = type == 2 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
+        if (op.value & (result.value_or(0) << address)) {
+            return fail(token, "byte selector is not valid for this source format");
+        }
         if (result) {
             token = ctx.tokenize();
         }
-- 
2.43.0


From 6cd93667e8ff22667dc8348609122b3a86856665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 10/34] fix: I2I half selector with a signed destination

The source format was read together with the destination sign bit, so
"I2I.S32.U16 R0, R1.H1" was rejected and ".B1" accepted.
---
 src/operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operand.h b/src/operand.h
index f2ddbd2..9c389d3 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1296,7 +1296,7 @@ namespace i2i
         static const char* bytes[] = {"B0", "B1", "B2", "B3", nullptr};
         static const char* shorts[] = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3", nullptr};
 
-        const uint64_t type = (op.value >> 10) & 0b111;
+        const uint64_t type = (op.value >> 10) & 0b11;
         const char* const* const table = type == 1 ? shorts : bytes;
         const std::optional result = find_in_table(token, table, ".");
         if (result) {
-- 
2.43.0


From ffc1a1a1fc474050170dee0b3202cd4b312ea21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 11/34] fix: opcode of ICMP with the constant buffer as second
 source

It shared 0x5340 with the form that has it as third source.
---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index cbd5e37..de18855 100644
--- a/src/table.h
+++ b/src/table.h
@@ -179,7 +179,7 @@ const insn table[]{
     INSN(0x38C0000000000000ULL, 0, "IADD3",               x<48>, dgpr<0>, cc, comma, neg<51>, sgpr<8>,                  comma,          uimm_extended, post_neg<50>, comma, neg<49>, sgpr<39>),
     INSN(0x5B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<20>, comma, sgpr<39>),
     INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, sgpr<39>, comma, cbuf),
-    INSN(0x5340000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
+    INSN(0x4B40000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, cbuf,     comma, sgpr<39>),
     INSN(0x3640000000000000ULL, 0, "ICMP", integer_compare<49>, int_sign, dgpr<0>, comma, sgpr<8>, comma, imm,      comma, sgpr<39>),
     INSN(0x5C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, sgpr<20>, comma, pred<39, true>),
     INSN(0x4C20000000000000ULL, 0, "IMNMX", int_sign, imnmx::mode, dgpr<0>, cc, comma, sgpr<8>, comma, cbuf,     comma, pred<39, true>),
-- 
2.43.0


From 281a4de78b5cf07d4fdfba0dcdf746ab80b33645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 12/34] fix: reject misaligned ATOMS offsets

The low bits were silently dropped.
---
 src/operand.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index 9c389d3..d415792 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -435,6 +435,9 @@ namespace memory
 
                 uint64_t value;
                 CHECK(convert_integer(token, min, max, &value));
+                if (value & max_bits(shr)) {
+                    return fail(token, "offset has to be aligned to %d bytes", 1 << shr);
+                }
                 value >>= shr;
                 op.add_bits((value & max_bits(size)) << addr);
                 token = ctx.tokenize();
-- 
2.43.0


From 9eff9d24ef6efa01a9a80880f59e7e18fa07d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 13/34] fix: reject @!PT on instructions without predicated
 execution

---
 src/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 72567ed..beb15e8 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -108,7 +108,7 @@ static std::pair<error, int> parse_insn(context& ctx, opcode& op, const insn& in
     op.add_bits(insn.opcode);
 
     token token = ctx.tokenize();
-    if ((insn.flags & NO_PRED) && (~op.value & (7ULL << 16))) {
+    if ((insn.flags & NO_PRED) && (op.value & (15ULL << 16)) != (7ULL << 16)) {
         return {fail(token, "%s does not support predicated execution", insn.mnemonic), 0};
     }
     int score = 1;
-- 
2.43.0


From bf032271cc0920e729e5b9d5ea75fb5e35326c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 14/34] fix: reject TLDS.LL with 3D and ARRAY_2D

There is no such encoding; .LL was silently dropped.
---
 src/operand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operand.h b/src/operand.h
index d415792..6b3d78a 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -1635,6 +1635,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in 3D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in 3D");
+        }
         mode = 7;
         break;
     case 3: // ARRAY_2D
@@ -1644,6 +1647,9 @@ DEFINE_OPERAND(tlds_type)
         if (ms) {
             return fail(token, "MS can't be used in ARRAY_2D");
         }
+        if (ll) {
+            return fail(token, "LL can't be used in ARRAY_2D");
+        }
         mode = 8;
         break;
     }
-- 
2.43.0


From 26fb648d5539c586015e716981f581e68af69259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 15/34] fix: do not accept a lone dot as a modifier

It matched the empty placeholder entries of the keyword tables.
---
 src/helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helper.cpp b/src/helper.cpp
index ebb0110..d106a90 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -78,6 +78,10 @@ std::optional<uint64_t> find_in_table(const token& token, const char* const* tab
         }
         text = text.substr(std::size(prefix));
     }
+    if (text.empty()) {
+        // Empty entries are placeholders
+        return {};
+    }
 
     for (size_t i = 0; table[i]; ++i) {
         if (text.compare(table[i]) != 0) {
-- 
2.43.0


From f78c96ba0f668f65cab6d77a62f478c5f25e685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 16/34] fix: signed overflow on extreme branch targets

---
 src/operand.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index 6b3d78a..b4452fd 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -145,10 +145,10 @@ DEFINE_OPERAND(label)
 
     static constexpr int64_t max = max_bits(23);
     static constexpr int64_t min = -static_cast<int64_t>(max_bits(23)) - 1;
-    const int64_t value = absolute - ctx.pc - 8;
-    if (value > max || value < min) {
+    if (absolute > max + ctx.pc + 8 || absolute < min + ctx.pc + 8) {
         return fail(token, "label out of range");
     }
+    const int64_t value = absolute - ctx.pc - 8;
     op.add_bits((static_cast<uint64_t>(value) & 0x7FFFFF) << 20);
     op.add_bits((value < 0 ? 1ULL : 0ULL) << 43);
 
-- 
2.43.0


From 25897a5f688f56fab010962b6415e8a4c700cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 17/34] fix: reject source text with embedded null characters

Everything after the null was silently dropped by the tool, and tripped an
assertion in the library.
---
 src/command_line.cpp | 2 +-
 src/nxas.cpp         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 7444c78..133983c 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -51,7 +51,7 @@ int main(int argc, char** argv)
         fatal_error("no output file");
     }
     const std::string input_text = read_file(input_file);
-    const std::vector<uint64_t> binary = nxas::assemble(input_text.c_str(), input_file);
+    const std::vector<uint64_t> binary = nxas::assemble(input_text, input_file);
     try {
         std::ofstream outfp(output_file, std::ios::binary);
         if (!outfp.is_open()) {
diff --git a/src/nxas.cpp b/src/nxas.cpp
index 6d19636..a483fda 100644
--- a/src/nxas.cpp
+++ b/src/nxas.cpp
@@ -24,6 +24,9 @@ static uint64_t generate_sched(std::span<const opcode> opcodes, size_t index,
 
 std::vector<uint64_t> assemble(const std::string& code, const char* filename)
 {
+    if (code.find('\0') != std::string::npos) {
+        fatal_error("%s: unexpected null character", filename);
+    }
     // Prepare our context
     context ctx(filename, code.c_str());
 
-- 
2.43.0


From 9a8845541e33b7569b34794c886e647c921ecd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 18/34] fix: skip labels without recursing

A long run of labels overflowed the stack.
---
 src/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 0743601..d13e42e 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -79,6 +79,7 @@ context::~context() = default;
 
 token context::tokenize()
 {
+restart:
     while (is_contained(" \t\r\n", *text)) {
         next();
     }
@@ -220,7 +221,7 @@ token context::tokenize()
 
     if (text[-1] == ':') {
         // ignore labels
-        return tokenize();
+        goto restart;
     }
     token.type = token_type::identifier;
     token.data.string = std::string_view(contents, static_cast<size_t>(text - contents));
-- 
2.43.0


From c050ca16f24b394c605c80ba2f28d6f4108a9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 19/34] fix: message for an input file that cannot be opened

nullptr was passed as the format string.
---
 src/command_line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 133983c..79e93f3 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -11,7 +11,7 @@ static std::string read_file(const char* filename)
 {
     std::ifstream file(filename, std::ios::binary);
     if (!file.is_open()) {
-        fatal_error(nullptr, "%s: failed to open", filename);
+        fatal_error("%s: failed to open", filename);
     }
     file.seekg(0, std::ios::end);
     std::string text(file.tellg(), ' ');
-- 
2.43.0


From fbcec58c01c32e3f2ffbb4b01b1acdf02a6ce8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 20/34] fix: reading directories, pipes and other inputs
 without a size

tellg fails (or reports nonsense) for them and the tool aborted with an
uncaught std::length_error or std::bad_alloc.
---
 src/command_line.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 79e93f3..6cffaf0 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -13,11 +13,15 @@ static std::string read_file(const char* filename)
     if (!file.is_open()) {
         fatal_error("%s: failed to open", filename);
     }
-    file.seekg(0, std::ios::end);
-    std::string text(file.tellg(), ' ');
-
-    file.seekg(0, std::ios::beg);
-    file.read(std::data(text), std::size(text));
+    std::string text;
+    char buffer[4096];
+    do {
+        file.read(buffer, sizeof(buffer));
+        text.append(buffer, static_cast<size_t>(file.gcount()));
+    } while (file);
+    if (file.bad()) {
+        fatal_error("%s: failed to read", filename);
+    }
     return text;
 }
 
-- 
2.43.0


From 74bd91c2add564ba1967828177c27866c4d81d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 21/34] fix: report output files that could not be written

Stream exceptions are off by default, so the tool exited with status 0 on e.g. a
full disk.
---
 src/command_line.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command_line.cpp b/src/command_line.cpp
index 6cffaf0..6c009ac 100644
--- a/src/command_line.cpp
+++ b/src/command_line.cpp
@@ -62,6 +62,10 @@ int main(int argc, char** argv)
             fatal_error("%s: failed to open", output_file);
         }
         outfp.write(reinterpret_cast<const char*>(binary.data()), binary.size() * sizeof(uint64_t));
+        outfp.close();
+        if (!outfp) {
+            fatal_error("%s: failed to write", output_file);
+        }
     } catch (const std::ios_base::failure& e) {
         fatal_error("failed to write output file: %s", e.what());
     }
-- 
2.43.0


From 3ae1b27cd2292c7a44b72a91d8ada18afdc66b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 22/34] fix: keep the sign of -0.0 in double and half
 immediates

---
 src/helper.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index d106a90..e96a37b 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -203,6 +203,14 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
     return {};
 }
 
+static bool is_negative(double value)
+{
+    // checks the sign bit, negative zero is not less than zero
+    uint64_t raw;
+    std::memcpy(&raw, &value, sizeof(raw));
+    return (raw >> 63) != 0;
+}
+
 error assemble_double_immediate(context& ctx, token& token, opcode& op)
 {
     static constexpr char MESSAGE[] = "expected floating-point literal, QNAN, or INF";
@@ -211,7 +219,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     switch (token.type) {
     case token_type::float_immediate:
         value = token.data.float_immediate;
-        if (value < 0) {
+        if (is_negative(value)) {
             op.add_bits(1ULL << 56);
         }
         break;
@@ -259,7 +267,7 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     switch (token.type) {
     case token_type::float_immediate:
         value = fp32_to_fp16(token.data.float_immediate);
-        if (token.data.float_immediate < 0 && neg_bit >= 0) {
+        if (is_negative(token.data.float_immediate) && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
-- 
2.43.0


From fe51e8ef53a791f5bd8dd4dfe124a5862fc12c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 23/34] fix: reject integer literals that do not fit in 64 bits

strtoll saturates, so e.g. FADD32I encoded 9223372036854775807 instead.
---
 src/context.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context.cpp b/src/context.cpp
index d13e42e..0fb62cb 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -162,7 +163,12 @@ restart:
             token.data.float_immediate = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
+            errno = 0;
             token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            if (errno == ERANGE) {
+                fatal_error(token, "integer literal \33[1;31m%.*s\33[0m is too large",
+                            (int)(text - contents), contents);
+            }
         }
         if (conversion_end != text) {
             fatal_error(token, "failed to parse literal \33[1;31m%.*s\33[0m",
-- 
2.43.0


From a608e3175e129caed41c08cf0cf0f81db4a531ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 24/34] fix: integer literals that are not exact as float

The comparison converted both sides to float and was always equal.
---
 src/helper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index e96a37b..fd41dea 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -158,8 +158,9 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
-        if (static_cast<int64_t>(token.data.immediate) != value) {
-            return fail(token, "integer immediate " PRId64 "cannot be represented as float",
+        // 2^63 is out of the range of int64_t, where the conversion back is undefined
+        if (value >= 0x1p63f || static_cast<int64_t>(value) != token.data.immediate) {
+            return fail(token, "integer immediate %" PRId64 " cannot be represented as float",
                         token.data.immediate);
         }
         break;
-- 
2.43.0


From 409fdccf6ce1770e0e526e79571ef2496647f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 25/34] fix: DKSH padding when the code is a multiple of 256
 bytes

256 bytes beyond the code size declared in the header were written.
---
 src/write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.cpp b/src/write.cpp
index aaeedb6..3472b34 100644
--- a/src/write.cpp
+++ b/src/write.cpp
@@ -22,7 +22,7 @@ std::vector<uint64_t> context::binary(std::span<const uint64_t> code) const
     }
     result.insert(result.end(), code.begin(), code.end());
     if (is_dksh) {
-        result.resize(result.size() + 32 - code.size() % 32);
+        result.resize((result.size() + 31) / 32 * 32);
     }
     return result;
 }
-- 
2.43.0


From fbeb3347bb86c253b80e44c7b637999252d7807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 26/34] fix: format of 64-bit values in the range diagnostic

---
 src/helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.cpp b/src/helper.cpp
index fd41dea..ef44f54 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -55,7 +55,7 @@ error convert_integer(const token& token, int64_t min, int64_t max, uint64_t* re
     int64_t value = token.data.immediate;
     if (value < min || value > max) {
         return fail(token,
-                    "integer \33[1m%d\33[0m is out of range, expected to be "
+                    "integer \33[1m%" PRId64 "\33[0m is out of range, expected to be "
                     "from %" PRId64 " to %" PRId64 " inclusively",
                     value, min, max);
     }
-- 
2.43.0


From 5ce30e72afd4c4fc7cf5df166aecf2fc983c3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 27/34] fix: diagnose unknown options

A misspelt option on a line of its own was silently ignored.
---
 src/options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/options.cpp b/src/options.cpp
index 7208d9f..93c7d2d 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -68,6 +68,9 @@ void context::parse_option(token& token)
             fatal_error(token, "expected local memory size");
         }
         local_mem_size = static_cast<int>(token.data.immediate);
+    } else {
+        fatal_error(token, "unknown option \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
     token = tokenize();
     if (option_line == token.line) {
-- 
2.43.0


From 4bb2f986f8e4fe34f38e81f3624638f9d9f44089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 28/34] fix: parse double immediates with double precision

---
 src/context.cpp | 3 ++-
 src/helper.cpp  | 8 ++++----
 src/token.h     | 9 ++++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 0fb62cb..05ae6ba 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -160,7 +160,8 @@ restart:
         char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate = std::strtof(contents, &conversion_end);
+            token.data.float_immediate.double_value = std::strtod(contents, &conversion_end);
+            token.data.float_immediate.single_value = std::strtof(contents, &conversion_end);
         } else {
             token.type = token_type::immediate;
             errno = 0;
diff --git a/src/helper.cpp b/src/helper.cpp
index ef44f54..23155d3 100644
--- a/src/helper.cpp
+++ b/src/helper.cpp
@@ -154,7 +154,7 @@ error assemble_float_immediate(context& ctx, token& token, opcode& op, int bits)
     float value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = token.data.float_immediate;
+        value = token.data.float_immediate.single_value;
         break;
     case token_type::immediate:
         value = static_cast<float>(token.data.immediate);
@@ -219,7 +219,7 @@ error assemble_double_immediate(context& ctx, token& token, opcode& op)
     double value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = token.data.float_immediate;
+        value = token.data.float_immediate.double_value;
         if (is_negative(value)) {
             op.add_bits(1ULL << 56);
         }
@@ -267,8 +267,8 @@ error assemble_half_float_immediate(context& ctx, token& token, opcode& op, int
     uint16_t value;
     switch (token.type) {
     case token_type::float_immediate:
-        value = fp32_to_fp16(token.data.float_immediate);
-        if (is_negative(token.data.float_immediate) && neg_bit >= 0) {
+        value = fp32_to_fp16(token.data.float_immediate.single_value);
+        if (is_negative(token.data.float_immediate.single_value) && neg_bit >= 0) {
             op.add_bits(1ULL << neg_bit);
         }
         break;
diff --git a/src/token.h b/src/token.h
index 0b1d5e6..dc8d066 100644
--- a/src/token.h
+++ b/src/token.h
@@ -28,12 +28,19 @@ struct token_predicate
     int negated;
 };
 
+struct token_float
+{
+    // the literal rounded to each precision, rounding twice would be inexact
+    double double_value;
+    float single_value;
+};
+
 union token_data
 {
     token_predicate predicate;
     std::string_view string{};
     int64_t immediate;
-    double float_immediate;
+    token_float float_immediate;
     uint8_t regster;
 };
 
-- 
2.43.0


From 6111ad2ac5cef7621bf42bc545841d7f428e32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 29/34] fix: diagnose option values that are out of range

---
 src/options.cpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/options.cpp b/src/options.cpp
index 93c7d2d..35abe34 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,3 +1,5 @@
+#include <climits>
+
 #include "context.h"
 #include "error.h"
 #include "helper.h"
@@ -35,39 +37,34 @@ void context::parse_option(token& token)
                         static_cast<int>(token.data.string.size()), token.data.string.data());
         }
     };
+    const auto parse_number = [this, &check_option_line, &token](const char* what, int max) {
+        token = tokenize();
+        if (token.type != token_type::immediate) {
+            fatal_error(token, "expected %s", what);
+        }
+        check_option_line();
+        if (token.data.immediate < 0 || token.data.immediate > max) {
+            fatal_error(token, "%s out of range, expected to be from 0 to %d inclusively", what,
+                        max);
+        }
+        return static_cast<int>(token.data.immediate);
+    };
     if (equal(token, ".dksh")) {
         is_dksh = true;
         parse_type();
     } else if (equal(token, ".type")) {
         parse_type();
     } else if (equal(token, ".num_gprs")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected number of general purpose registers");
-        }
-        num_gprs = static_cast<int>(token.data.immediate);
-        check_option_line();
+        num_gprs = parse_number("number of general purpose registers", INT_MAX);
     } else if (equal(token, ".workgroup_size")) {
         for (int i = 0; i < 3; ++i) {
-            token = tokenize();
-            if (token.type != token_type::immediate) {
-                fatal_error(token, "expected workgroup sizes");
-            }
-            block_dimensions[i] = static_cast<int>(token.data.immediate);
+            block_dimensions[i] = parse_number("workgroup sizes", INT_MAX);
         }
-        check_option_line();
     } else if (equal(token, ".shared_memory")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected shared memory size");
-        }
-        shared_mem_size = static_cast<int>(token.data.immediate);
+        shared_mem_size = parse_number("shared memory size", INT_MAX);
     } else if (equal(token, ".local_memory")) {
-        token = tokenize();
-        if (token.type != token_type::immediate) {
-            fatal_error(token, "expected local memory size");
-        }
-        local_mem_size = static_cast<int>(token.data.immediate);
+        // the scratch memory of a warp, derived from this size, has to fit in the header
+        local_mem_size = parse_number("local memory size", 0x3ffffb0);
     } else {
         fatal_error(token, "unknown option \33[1m%.*s\33[0m",
                     static_cast<int>(token.data.string.size()), token.data.string.data());
-- 
2.43.0


From 585ef25c23fcf8ee2220e533f18241542d38c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 30/34] fix: arguments of diagnostics that print the offending
 text

---
 src/operand.h   | 10 +++++-----
 src/options.cpp |  2 +-
 src/parse.cpp   |  4 ++--
 src/token.cpp   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/operand.h b/src/operand.h
index b4452fd..bfe9f1e 100644
--- a/src/operand.h
+++ b/src/operand.h
@@ -59,8 +59,8 @@ inline error assemble_cc_tests(context& ctx, opcode& op, token& token, const cha
 
         test_index = find_in_table(token, tests, ".");
         if (!test_index) {
-            return fail(token, "unexpected test %.*s", std::size(token.data.string),
-                        std::data(token.data.string));
+            return fail(token, "unexpected test %.*s", static_cast<int>(token.data.string.size()),
+                        token.data.string.data());
         }
         token = ctx.tokenize();
     }
@@ -130,8 +130,8 @@ DEFINE_OPERAND(label)
     case token_type::identifier: {
         const std::optional label = ctx.find_label(token.data.string);
         if (!label) {
-            return fail(token, "label \33[1m%.*s\33[0m not defined", std::size(token.data.string),
-                        std::data(token.data.string));
+            return fail(token, "label \33[1m%.*s\33[0m not defined",
+                        static_cast<int>(token.data.string.size()), token.data.string.data());
         }
         absolute = *label;
         break;
@@ -1197,7 +1197,7 @@ DEFINE_OPERAND(s2r)
         value = find_in_table(token, table, "");
         if (!value) {
             return fail(token, "invalid system register \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(info(token).size()), info(token).data());
         }
         token = ctx.tokenize();
     }
diff --git a/src/options.cpp b/src/options.cpp
index 35abe34..ac8dd5b 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -34,7 +34,7 @@ void context::parse_option(token& token)
             type = program_type::compute;
         } else {
             fatal_error(token, "invalid program type \33[1m%.*s\33[0m",
-                        static_cast<int>(token.data.string.size()), token.data.string.data());
+                        static_cast<int>(info(token).size()), info(token).data());
         }
     };
     const auto parse_number = [this, &check_option_line, &token](const char* what, int max) {
diff --git a/src/parse.cpp b/src/parse.cpp
index beb15e8..ab10628 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -179,7 +179,7 @@ bool parse_instruction(context& ctx, opcode& op)
     if (error_message) {
         error_message.raise();
     } else {
-        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m", std::size(token.data.string),
-                    std::data(token.data.string));
+        fatal_error(token, "unknown mnemonic \33[1m%.*s\33[0m",
+                    static_cast<int>(token.data.string.size()), token.data.string.data());
     }
 }
diff --git a/src/token.cpp b/src/token.cpp
index e75714e..7830fef 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -43,7 +43,7 @@ const char* name(token_type type)
 std::string_view info(const token& token)
 {
     if (token.type != token_type::identifier) {
-        return {};
+        return "";
     }
     return token.data.string;
 }
-- 
2.43.0


From 431d6b3367be016c6a6d1f863cbc22495f4dbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:16 +0000
Subject: [PATCH 31/34] fix: convert float literals with charconv

strtof and strtod depend on the locale of the process (a comma as radix makes
every literal with a fraction an error), and the strtof of glibc misrounds some
subnormals.
---
 src/context.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 05ae6ba..765046b 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -2,13 +2,16 @@
 #include <cassert>
 #include <cctype>
 #include <cerrno>
+#include <charconv>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <string_view>
+#include <system_error>
 
 #include "context.h"
 #include "error.h"
@@ -44,6 +47,29 @@ static bool is_alnum(int character) noexcept
     return is_alpha(character) || is_decimal(character);
 }
 
+// unlike the strtod family this is correctly rounded and independent of the locale
+template <typename T>
+static const char* parse_float(const char* begin, const char* end, T& value) noexcept
+{
+    const bool is_negative = *begin == '-';
+    if (is_negative || *begin == '+') {
+        ++begin;
+    }
+    if (!is_decimal(*begin)) {
+        return begin;
+    }
+    const auto [ptr, error] = std::from_chars(begin, end, value, std::chars_format::fixed);
+    if (error == std::errc::result_out_of_range) {
+        // literals have no exponent, only those with an integral part can overflow
+        const bool is_huge = begin[std::strspn(begin, "0")] != '.';
+        value = is_huge ? std::numeric_limits<T>::infinity() : T{};
+    }
+    if (is_negative) {
+        value = -value;
+    }
+    return ptr;
+}
+
 static token_type get_operator_type(int character) noexcept
 {
     switch (character) {
@@ -156,16 +182,17 @@ restart:
         if (!is_separator(*text)) {
             fatal_error(token, "no separator after immediate");
         }
-        // TODO: use charconv here once gcc 11 ships
-        char* conversion_end = nullptr;
+        const char* conversion_end = nullptr;
         if (is_floating_point) {
             token.type = token_type::float_immediate;
-            token.data.float_immediate.double_value = std::strtod(contents, &conversion_end);
-            token.data.float_immediate.single_value = std::strtof(contents, &conversion_end);
+            conversion_end = parse_float(contents, text, token.data.float_immediate.double_value);
+            conversion_end = parse_float(contents, text, token.data.float_immediate.single_value);
         } else {
+            char* integer_end = nullptr;
             token.type = token_type::immediate;
             errno = 0;
-            token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &conversion_end, 0));
+            token.data.immediate = static_cast<int64_t>(std::strtoll(contents, &integer_end, 0));
+            conversion_end = integer_end;
             if (errno == ERANGE) {
                 fatal_error(token, "integer literal \33[1;31m%.*s\33[0m is too large",
                             (int)(text - contents), contents);
-- 
2.43.0


From 98c9971989165390b7c34ff53ff7ef780d1074d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 32/34] fix: diagnostic for a stray '!' was followed by an
 empty line

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 765046b..886e9b2 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -133,7 +133,7 @@ restart:
         if ((token.data.predicate.negated = *text == '!')) {
             next();
             if (!is_contained("Pp", *text)) {
-                fatal_error(token, "fatal: invalid usage of '!'\n");
+                fatal_error(token, "fatal: invalid usage of '!'");
             }
         }
         next();
-- 
2.43.0


From c62789b1c8d6171a58653c4460e3ebc6007abfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:18 +0000
Subject: [PATCH 33/34] fix: backtracking copied every label for every
 instruction

---
 src/context.cpp | 7 ++++---
 src/context.h   | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 886e9b2..0b0a230 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -264,8 +264,8 @@ restart:
 
 std::optional<int64_t> context::find_label(std::string_view label) const
 {
-    const auto it = labels.find(std::string{label});
-    if (it == std::end(labels)) {
+    const auto it = labels->find(std::string{label});
+    if (it == std::end(*labels)) {
         return {};
     }
     return it->second;
@@ -318,6 +318,7 @@ void context::generate_labels()
 
     assert(line == 0 && column == 0);
 
+    labels = std::make_shared<std::unordered_map<std::string, int64_t>>();
     pc = 8;
 
     while (*text) {
@@ -332,7 +333,7 @@ void context::generate_labels()
         if (*text == ':') {
             std::string label;
             label.append(potential_label, static_cast<size_t>(text - potential_label));
-            labels.insert({std::move(label), pc});
+            labels->insert({std::move(label), pc});
         }
         next_line();
     }
diff --git a/src/context.h b/src/context.h
index 1869be5..5c0d241 100644
--- a/src/context.h
+++ b/src/context.h
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 #include <optional>
 #include <span>
 #include <string>
@@ -54,7 +55,8 @@ class context
     const char* text;
     int line = 0;
     int column = 0;
-    std::unordered_map<std::string, int64_t> labels;
+    // shared by the copies made to backtrack, constant once generated
+    std::shared_ptr<std::unordered_map<std::string, int64_t>> labels;
 
     std::optional<program_type> type;
     bool is_dksh = false;
-- 
2.43.0


From 30bcb4f1fb6ce666bc472d9b8436229de48c8fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 34/34] fix: overflow of the line and column counters

---
 src/context.h   |  4 ++--
 src/error.cpp   | 12 +++++++-----
 src/options.cpp |  3 ++-
 src/token.h     |  4 ++--
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/context.h b/src/context.h
index 5c0d241..0c64c3e 100644
--- a/src/context.h
+++ b/src/context.h
@@ -53,8 +53,8 @@ class context
     const char* filename;
     const char* text_begin;
     const char* text;
-    int line = 0;
-    int column = 0;
+    int64_t line = 0;
+    int64_t column = 0;
     // shared by the copies made to backtrack, constant once generated
     std::shared_ptr<std::unordered_map<std::string, int64_t>> labels;
 
diff --git a/src/error.cpp b/src/error.cpp
index 1d982ad..4e5133c 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cinttypes>
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
@@ -15,10 +16,11 @@ void error::raise()
 
 error fail(const token& token, const char* fmt, ...)
 {
-    static const char errfmt[] = "\33[1m%s:\33[1m%d:%d: \33[1;31merror:\33[0m ";
+    static const char errfmt[] =
+        "\33[1m%s:\33[1m%" PRId64 ":%" PRId64 ": \33[1;31merror:\33[0m ";
 
-    const int line = token.line + 1;
-    const int column = token.column + 1;
+    const int64_t line = token.line + 1;
+    const int64_t column = token.column + 1;
 
     const int first_length = std::snprintf(NULL, 0, errfmt, token.filename, line, column);
     std::va_list ap;
@@ -42,8 +44,8 @@ error fail(const token& token, const char* fmt, ...)
 
 void fatal_error(const token& token, const char* fmt, ...)
 {
-    std::fprintf(stderr, "\33[1m%s:\33[1m%d:%d: ", token.filename, token.line + 1,
-                 token.column + 1);
+    std::fprintf(stderr, "\33[1m%s:\33[1m%" PRId64 ":%" PRId64 ": ", token.filename,
+                 token.line + 1, token.column + 1);
     std::fprintf(stderr, "\33[1;31merror:\33[0m ");
 
     std::va_list ap;
diff --git a/src/options.cpp b/src/options.cpp
index ac8dd5b..e4dd6cb 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -1,4 +1,5 @@
 #include <climits>
+#include <cstdint>
 
 #include "context.h"
 #include "error.h"
@@ -7,7 +8,7 @@
 
 void context::parse_option(token& token)
 {
-    const int option_line = token.line;
+    const int64_t option_line = token.line;
     const auto check_option_line = [option_line, &token] {
         if (token.line != option_line) {
             fatal_error(token, "unexpected new line in option");
diff --git a/src/token.h b/src/token.h
index dc8d066..1f958dc 100644
--- a/src/token.h
+++ b/src/token.h
@@ -49,8 +49,8 @@ struct token
     const char* filename;
     token_data data;
     token_type type;
-    int line;
-    int column;
+    int64_t line;
+    int64_t column;
 };
 
 const char* name(token_type type);
-- 
2.43.0

