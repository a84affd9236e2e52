import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe or ["nxas::assemble return value / process exit"],"hook_needed":hook}})
def m(n,w): return {"name":n,"where":w}

p("C01","No source text can crash, hang or corrupt the assembler",
 "For every byte string given as source text (and any file name), assembling it terminates and ends in exactly one of two ways: it returns machine code, or it prints a diagnostic and exits with status 1. It never aborts, trips an internal assertion, reads or writes outside its buffers, depends on uninitialised memory, overflows the stack or executes undefined behaviour, whether the text is valid, truncated at any byte, mutated, or random garbage.",
 ["inputs"],"all byte strings, including truncations, embedded NULs, very long tokens/lines and huge runs of labels",
 "The suite runs 1110 fixed one-liners, all short and nearly all valid, in an unsanitized build; a failure test passes on any nonzero exit, so wild reads go unnoticed.",
 ["src/context.cpp","src/helper.cpp","src/operand.h","src/parse.cpp","src/nxas.cpp","src/options.cpp","src/error.cpp"],
 [m("hand-written NUL-terminated scanner","src/context.cpp context::tokenize / generate_labels"),m("nullptr-terminated keyword tables","src/helper.cpp find_in_table"),m("bit-overlap assertion","src/opcode.h opcode::add_bits"),m("diagnose-and-exit","src/error.cpp fatal_error / error::raise")],
 [{"name":"text cursor","meaning":"must stay inside [begin, NUL]","where":"src/context.h"}],
 ["sanitizer reports, signals, exit status, diagnostics on stderr"])

p("C02","Every accepted instruction is encoded as the exact machine word it denotes",
 "For every instruction form the assembler supports and every combination of guard, modifiers and operand values, the emitted 64-bit word is exactly the one the Maxwell encoding assigns to it: the right opcode for the operand kinds used, each operand and modifier in its own bit field, documented defaults for omitted modifiers, and every other bit zero.",
 ["inputs","programs"],"all mnemonics x operand-kind forms x modifier combinations x operand values",
 "The suite fixes 1085 single instructions; forms have 5-15 independent slots each, so almost every combination, boundary value and cross-slot interaction (selectors that depend on formats, texture types that depend on LOD mode, ...) is never executed.",
 ["src/table.h","src/operand.h","src/helper.cpp","src/parse.cpp"],
 [m("instruction table","src/table.h table[]"),m("operand encoders","src/operand.h"),m("first matching form wins, others are rolled back","src/parse.cpp parse_instruction")],
 [{"name":"opcode.value","meaning":"accumulated instruction bits","where":"src/opcode.h"}])

p("C03","Different instructions never share an encoding",
 "If two accepted instructions differ in the value of one operand, modifier or guard, or in the order or kind of their operands, then their machine words differ: nothing the programmer wrote is silently dropped or merged into another field. (The only tolerated loss is precision of a floating-point literal that does not fit its immediate field, and spellings of the same value such as an explicitly written default.)",
 ["inputs","programs"],"all pairs of accepted instructions of a mnemonic that differ in one slot, and all pairs of operand-kind forms",
 "Injectivity is a relation between pairs of inputs; the suite checks single inputs against constants and has no pair tests.",
 ["src/table.h","src/operand.h","src/helper.cpp"],
 [m("disjoint bit fields per form","src/table.h"),m("distinct opcode per operand-kind form","src/table.h")])

p("C04","Numeric operands are accepted exactly when they fit their field",
 "For every numeric operand (registers, predicates, integer immediates, memory and constant-buffer offsets, shift amounts, masks, handles) a value inside the operand's documented range assembles and a value outside it, or a misaligned offset where alignment is required, is rejected with a diagnostic. An out-of-range value is never truncated, wrapped, saturated or allowed to spill into neighbouring bits.",
 ["inputs"],"every operand slot of every form x every integer, with emphasis on range edges, powers of two and 64-bit extremes",
 "Only a handful of fixed in-range values per field and four register/predicate rejections are tested; no field's upper or lower edge is systematically probed.",
 ["src/helper.cpp","src/operand.h","src/context.cpp"],
 [m("range check","src/helper.cpp convert_integer"),m("register/predicate index checks","src/context.cpp tokenize"),m("per-field widths","src/operand.h DEFINE_UINT / DEFINE_INT / memory::address / uimm_extended")])

p("C05","Branches reach the label or address they name, for every program layout",
 "For every program, the displacement stored in a branch-like instruction, added to the address of the following 8-byte slot, is exactly the address at which the instruction following the named label was placed (or the literal absolute address given), for forward, backward and self references and regardless of how many instructions, scheduling slots, directives, blank lines or other labels lie between. A target that is undefined or does not fit the 24-bit displacement is rejected.",
 ["programs"],"all programs with labels, all label positions relative to the 4-word bundles, all distances",
 "The suite's only label tests are two one-instruction self-branches; bundle boundaries, forward references and multi-label programs are never assembled.",
 ["src/context.cpp","src/operand.h","src/parse.cpp"],
 [m("label pass","src/context.cpp generate_labels"),m("second-pass program counter","src/parse.cpp parse_instruction"),m("displacement encoding","src/operand.h label")],
 [{"name":"context.pc","meaning":"address of the current instruction, must agree between the two passes","where":"src/context.h"},{"name":"labels","meaning":"name to address","where":"src/context.h"}])

p("C06","Programs are laid out in order, in complete four-word bundles",
 "For a program of N instructions the output is ceil(N/3) bundles of four words: one scheduling word followed by three instruction words, in source order, with unused slots of the last bundle filled by NOPs with the neutral scheduling value. Each instruction's word is the same as when it is assembled alone (apart from branch displacements), no instruction is lost, duplicated or reordered, and an empty program yields an empty output.",
 ["programs"],"all program lengths and instruction mixes",
 "Every test assembles exactly one instruction and looks only at word 1 of the result; multi-instruction output is never examined.",
 ["src/nxas.cpp","src/parse.cpp"],
 [m("bundle writer","src/nxas.cpp assemble"),m("backtracking state restore","src/parse.cpp parse_instruction")],
 [{"name":"opcodes/blob","meaning":"decoded instructions and output words","where":"src/nxas.cpp"}])

p("C07","Scheduling and reuse annotations land in their own instruction's slot",
 "For every instruction and position, the 21-bit control field of its own slot in the bundle's scheduling word holds exactly the stall count, yield flag, write and read barrier, dependency mask and operand-reuse flags written on that instruction (with defaults 0, off, 7, 7, empty, none), independent of annotation order and of the neighbouring instructions. Duplicate, out-of-range, malformed or unsupported annotations are rejected.",
 ["inputs","programs"],"all annotation combinations and orders x all slots x all neighbours",
 "No test reads the scheduling word at all; only rejection of a few bad annotations is covered.",
 ["src/parse.cpp","src/nxas.cpp","src/helper.cpp","src/opcode.h"],
 [m("annotation parser","src/parse.cpp assemble_sched"),m("slot packing","src/nxas.cpp generate_sched"),m("reuse flags","src/helper.cpp try_reuse")],
 [{"name":"opcode.sched / opcode.reuse","meaning":"per-instruction control bits","where":"src/opcode.h"}])

p("C08","Only well-formed statements are accepted; one bad statement fails the program",
 "A program assembles only if every statement is a well-formed guard, mnemonic, modifiers, operands, annotations and terminator of a supported form. Unknown, misspelt, misplaced, repeated or conflicting modifiers, missing or extra operands or separators, missing terminators, unknown directives and stray text are always rejected, wherever in the program they occur, and every statement of a supported form is accepted.",
 ["inputs","programs"],"all edits of valid programs at character, token and statement level",
 "25 fixed rejection tests cover a negligible part of the complement of the language and say nothing about position within a program.",
 ["src/parse.cpp","src/context.cpp","src/helper.cpp","src/operand.h","src/options.cpp"],
 [m("form matching and fallback","src/parse.cpp parse_insn / parse_instruction"),m("token type checks","src/helper.cpp confirm_type"),m("keyword lookup","src/helper.cpp find_in_table")])

p("C09","Floating-point immediates encode the literal's value exactly as specified",
 "For every floating-point or integer literal, INF and QNAN with any sign, the encoded immediate is the IEEE-754 value of the literal rounded to nearest-even in the operand's format (half, single or double precision; half via single), truncated toward zero to the bits the instruction form stores, with the literal's sign - including the sign of zero - in the form's sign bit. An integer literal that a single-precision operand cannot represent exactly is rejected.",
 ["inputs"],"all decimal and integer literals: normals, subnormals, ties, overflow and underflow boundaries, signed zero, specials, in every form taking a float immediate",
 "About thirty round literals are tested, none subnormal, tied, overflowing, negative zero or beyond single range.",
 ["src/helper.cpp","src/fp16.h","src/context.cpp"],
 [m("literal conversion","src/context.cpp tokenize"),m("float/double/half packing","src/helper.cpp assemble_float_immediate / assemble_double_immediate / assemble_half_float_immediate"),m("half conversion","src/fp16.h fp32_to_fp16")])

p("C10","DKSH output is a self-consistent container reporting the directives given",
 "For every program with a container directive, the output is a 256-byte control section whose magic, offsets, sizes, program type, entry point, register count, scratch, workgroup, shared and local memory fields agree with the directives and with the code that follows, then the code (identical to the raw assembly of the same instructions) zero-padded to the declared 256-byte-aligned code size, and nothing more. A missing, malformed or out-of-range directive value, a repeated program type, or a missing or misaligned entry point, is rejected rather than encoded as something else; without the directive the output is the raw code only.",
 ["configurations","programs"],"all directive combinations, values and orders x program sizes (including exact multiples of 256 bytes) x entry point positions",
 "No test uses any directive or looks at the container.",
 ["src/dksh.cpp","src/options.cpp","src/write.cpp"],
 [m("container writer","src/dksh.cpp write_dksh"),m("directive parser","src/options.cpp parse_option"),m("assembly of sections and padding","src/write.cpp binary")])

p("C11","Assembly is a pure, re-entrant function of the source text",
 "The result for a source text depends on that text alone: repeating a call, interleaving it with any history of other successful calls in the same process, or running any number of calls concurrently on different threads gives the same words every time, without data races.",
 ["histories","schedules"],"all call histories and thread interleavings in one process",
 "Each test is a fresh process making one call.",
 ["src/nxas.cpp","src/context.cpp","src/operand.h","src/table.h"],
 [m("all state lives in a per-call context","src/nxas.cpp assemble / src/context.h"),m("constant static tables only","src/table.h, src/operand.h")])

p("C12","Layout, labels and literal notation do not change the generated code",
 "Changing only the layout of a program - spaces, tabs, carriage returns, newlines and blank lines between tokens, one statement per line or many, trailing text-free whitespace, added or renamed labels - or writing an integer as decimal, hexadecimal or octal leaves the output words unchanged, and so does spelling out a modifier's default.",
 ["inputs","programs"],"all layout-equivalent and notation-equivalent rewritings of all programs",
 "All tests are one line with single spaces and fixed notation.",
 ["src/context.cpp"],
 [m("whitespace skipping and token boundaries","src/context.cpp tokenize"),m("label pre-pass","src/context.cpp generate_labels"),m("literal conversion","src/context.cpp tokenize")])

p("C13","The command-line tool is all-or-nothing and reports failure in its status",
 "The nxas tool exits 0 if and only if the output file holds exactly the bytes of the assembled input file, little-endian word by word; in every other case - bad arguments, unreadable or non-regular input, any source error, or an output that cannot be opened or fully written - it prints a diagnostic and exits with status 1. When the input is rejected, an existing output file is left untouched and a missing one is not created.",
 ["inputs","fault_sequences","configurations"],"all argument lists, input files and I/O failures",
 "src/command_line.cpp is not executed by any test.",
 ["src/command_line.cpp","src/nxas.cpp","src/error.cpp"],
 [m("argument parsing, file I/O","src/command_line.cpp main / read_file"),m("assemble before opening the output","src/command_line.cpp main")],
 None,["exit status, stderr and output file of the nxas executable"])

p("C14","Guard predicates are encoded on every instruction or rejected",
 "For every instruction form, the guard written before it (@P0..@P6, @PT or their negations) is stored in the guard field and nothing else changes, an omitted guard means always-execute, and the result is independent of which operand form is selected. Instructions that cannot be predicated reject every guard except the always-true one, and malformed or out-of-range guards are rejected.",
 ["inputs"],"all forms x all 16 guards x all operand values",
 "A few tests carry a guard on a few mnemonics; the non-predicable instructions are never tested with one.",
 ["src/parse.cpp","src/table.h","src/context.cpp"],
 [m("guard encoding","src/parse.cpp assemble_predicate / parse_instruction"),m("NO_PRED flag","src/table.h, src/parse.cpp parse_insn")])

p("C15","Output does not depend on build configuration",
 "The same source text produces the same words and the same accept/reject outcome whether the library is built with or without assertions, at any optimisation level, and with either supported compiler.",
 ["configurations","inputs"],"builds {gcc, clang} x {-O0..-O3} x {assertions on, off} on the same inputs",
 "The suite runs one build (gcc, -O1, assertions on).",
 ["src/opcode.h","src/parse.cpp","src/helper.cpp","src/context.cpp","src/nxas.cpp"],
 [m("assertions carry no behaviour","src/opcode.h add_bits, src/nxas.cpp assemble"),m("bit-field scheduling union","src/opcode.h")],
 None,["nxas::assemble results of several builds side by side"])

p("C16","Diagnostics name the file, line and column of the offending statement",
 "When a program contains a malformed statement, the diagnostic carries the given file name and a 1-based line and column that point at a token of that statement - the first one, if there are several - (or, when the statement is cut short, at the token or end of input found where it should have continued), for every position of the statement in the program and every layout before it, with a tab counting as four columns.",
 ["programs"],"all programs with faulty statements, all positions and layouts",
 "No test looks at the text of a diagnostic.",
 ["src/error.cpp","src/context.cpp","src/parse.cpp"],
 [m("token positions","src/context.cpp tokenize / next"),m("message formatting","src/error.cpp fail / fatal_error"),m("best error across alternatives","src/parse.cpp parse_instruction")],
 [{"name":"context.line/column","meaning":"position of the cursor, restored on backtracking","where":"src/context.h"}],["stderr"])

p("C17","A rejection is one truthful line on standard error; success is silent",
 "Whatever the source text and file name, assembling it writes nothing to standard output, and nothing to standard error when it succeeds. When the text or the tool's command line is rejected, exactly one diagnostic is written to standard error: one complete newline-terminated line with a non-empty error message, the same bytes for the same text and name on every run, after any earlier calls and in every build. The line is truthful: source text that it quotes is exactly the token found at the line and column it names, however long; a number that it shows is the value written there; a range of values that it states is the one in force at that place; what it calls unknown or undefined is so, and the kind of token it says it got is the kind found there.",
 ["inputs","histories","configurations"],"all source texts, file names, command lines and earlier calls",
 "No test looks at what is printed; the failure tests only look at the exit status.",
 ["src/error.cpp","src/helper.cpp","src/context.cpp","src/options.cpp","src/parse.cpp","src/command_line.cpp"],
 [m("message built twice by snprintf","src/error.cpp fail"),m("diagnose-and-exit","src/error.cpp fatal_error / error::raise"),m("only the best alternative's error is raised","src/parse.cpp parse_instruction"),m("expected / got texts","src/helper.cpp confirm_type, src/token.cpp")],
 None,["stdout and stderr of nxas::assemble and of the tool"])

p("C18","The work of assembling grows in proportion to the text",
 "However a program is made longer - more statements of any form, more labels and branches, more directives, more white space, longer names or literals, in any mixture, accepted or rejected in the end - the processor time and memory needed grow at most in proportion to the length of the text (up to the usual steps of growing containers): nothing is done again for every statement, token or label that itself depends on the length of the program, so a text of a megabyte is assembled or rejected in seconds.",
 ["inputs"],"all ways of lengthening a program, up to megabytes",
 "The tests are one-liners; cost that depends on program length is invisible to them.",
 ["src/context.cpp","src/context.h","src/parse.cpp","src/nxas.cpp","src/write.cpp","src/helper.cpp"],
 [m("backtracking copies of the context","src/parse.cpp parse_instruction"),m("one label scan and hashed lookup","src/context.cpp generate_labels / find_label"),m("instruction count ahead of decoding","src/nxas.cpp assemble")],
 None,["control-flow edges, bytes scanned, copied and allocated during nxas::assemble; processor time"])
p("C19","A call leaves the process as it found it; a rejection ends it in order",
 "Assembling has no effect on the calling process but its result: after a successful call all memory it obtained, except the returned words, has been released - memory in use does not grow with the number of calls, whatever the texts - and the locale, floating-point control, signal handling, timers, file descriptors, threads, working directory, environment, standard streams, random sequence and the arguments are as before. A rejection ends the process by a normal exit with status 1, so that the program's exit handlers run and its buffered output is written.",
 ["inputs","histories"],"all source texts and all sequences of calls",
 "Each test makes one call in a process of its own and looks at the words only.",
 ["src/nxas.cpp","src/context.cpp","src/context.h","src/error.cpp","src/error.h","src/parse.cpp"],
 [m("ownership by standard containers and smart pointers","src/context.h, src/error.h"),m("diagnose-and-exit","src/error.cpp"),m("no ambient state consulted or changed by literal conversion","src/context.cpp")],
 None,["heap in use and process state before and after nxas::assemble; how the process ends"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
