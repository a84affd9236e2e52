"""Writes MANIFEST.json from the list of checks."""
import json
ORACLE = "the executable specification in nxv/ (lexer, 265 instruction forms, layout, container), written independently of the C++"
T = {
 "C01": ("AddressSanitizer + UBSan + coverage-guided fuzzing + valgrind memcheck + resource limits",
         "Finds memory errors, UB, uninitialised reads, aborts, hangs and super-linear blow-ups on the explored texts; sanitizers see only executed paths."),
 "C02": ("online differential monitor against an executable encoding specification",
         "Every observed word of millions of generated instructions is compared with " + ORACLE + "; values of wide fields are sampled with emphasis on edges."),
 "C03": ("relational (hyperproperty) monitor over pairs and over a global word table",
         "Pairs differing in one slot and all words ever seen per run must be distinct; needs no oracle for the words themselves, only for which differences are meaningful."),
 "C04": ("boundary-driven runtime monitor of accept/reject per operand field",
         "Every numeric slot of every form probed at and around its edges, at powers of two and 64-bit extremes; the decoded field must hold the value."),
 "C05": ("trace monitor decoding branch displacements from the output",
         "The monitor decodes every displacement and recomputes the address from the program; includes programs at the 24-bit limit."),
 "C06": ("trace monitor over output bundles, metamorphic against single-instruction runs",
         "Layout of every observed program recomputed; words compared with the same instruction assembled alone."),
 "C07": ("trace monitor decoding the scheduling words",
         "Control fields decoded from the output and compared with the annotations written."),
 "C08": ("accept/reject monitor over systematic and random edits",
         "All one-token edits of baselines of every form plus random edits and programs, judged by the grammar of " + ORACLE + "."),
 "C09": ("runtime monitor with exact rational-arithmetic oracle",
         "Every encoded immediate compared with exact rounding done in rationals; literals at ties, subnormals, overflow edges."),
 "C10": ("runtime monitor decoding the container",
         "Every container decoded and compared with the directives and with the raw assembly of the same instructions."),
 "C11": ("ThreadSanitizer + history and concurrency monitors",
         "Call histories, threads under TSan and in a plain build, poisoned heap, file names and locales; schedules are those the OS produced."),
 "C12": ("metamorphic runtime monitor over equivalent rewritings",
         "Words of layout-, label- and notation-equivalent texts compared; gaps of every token boundary covered."),
 "C13": ("fault injection on the real tool (rlimits, syscall shim, special files, unprivileged user) with a filesystem monitor",
         "Write failure at every byte offset and each kind of read/open/write/close failure; status, diagnostic and directory contents observed."),
 "C14": ("metamorphic runtime monitor over all forms x all guards",
         "All 16 guards on every form with random operands; relation to the unguarded word, no encoding oracle needed."),
 "C15": ("differential execution of nine builds",
         "The same texts in nine gcc/clang builds side by side; other hosts and compilers are not available."),
 "C16": ("runtime monitor of diagnostics",
         "Position and file name of each diagnostic compared with positions computed from the text."),
 "C17": ("stream monitor of library and tool, differential over builds, histories and fresh processes",
         "Everything written to the two standard streams during each observed call is captured; one line, quotes compared with the token at the position named, bytes compared across four builds."),
 "C18": ("work-counting instrumentation (coverage callbacks, wrapped C functions, allocation counters) over growing inputs",
         "Deterministic counts at sizes n and 4n of about 800 families of texts, with processor time as a coarse second measure; work hidden in uninstrumented library code is seen only by the latter."),
 "C19": ("state monitor: interposed allocator and before/after snapshots of the process",
         "Heap in use and some twenty kinds of process state compared around each observed call; growth over thousands of different calls; exit handlers and buffered output of rejected calls."),
}
LEVELS = {"C13": "fault_enumeration"}
checks = [{"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
           "technique": t, "level": LEVELS.get(p, "exploration"), "level_note": n} for p, (t, n) in T.items()]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the public call, its exit path (linker --wrap=exit in the harness) and the tool's system calls are observable from outside."},
          open("/verif/MANIFEST.json", "w"), indent=1)
