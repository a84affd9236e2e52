"""Writes known_findings.txt: every fix: commit of /repo with the property whose check found it."""
import subprocess
PROP = {
 "convert float literals with charconv": ("C11", "float literals were rejected under a locale with a comma as radix, and some subnormals were misrounded (also C09)"),
 "arguments of diagnostics that print": ("C01", "string_view objects were passed to printf-style diagnostics (undefined behaviour, wrong text)"),
 "diagnose option values": ("C10", "option values that do not fit were truncated, wrapped or parsed past the end of their line"),
 "parse double immediates": ("C09", "double immediates were rounded to single precision first"),
 "diagnose unknown options": ("C08", "unknown directives were not rejected"),
 "format of 64-bit values": ("C01", "mismatched printf format for 64-bit values (undefined behaviour)"),
 "DKSH padding": ("C10", "code of a multiple of 256 bytes was padded with 256 more bytes than declared"),
 "integer literals that are not exact": ("C09", "undefined behaviour and wrong exactness decision for large integers as float immediates"),
 "reject integer literals that do not fit": ("C04", "integer literals beyond 64 bits were saturated"),
 "keep the sign of -0.0": ("C09", "the sign of -0.0 was lost in double and half immediates"),
 "report output files that could not": ("C13", "write errors on the output were ignored and exit status was 0"),
 "reading directories, pipes": ("C13", "directories crashed the tool, pipes and devices were read as empty"),
 "message for an input file": ("C13", "wrong message for unreadable input"),
 "skip labels without recursing": ("C01", "stack overflow on long runs of labels"),
 "reject source text with embedded null": ("C01", "text after an embedded NUL was silently dropped"),
 "signed overflow on extreme": ("C05", "signed overflow on extreme absolute branch targets"),
 "do not accept a lone dot": ("C08", "a lone dot was accepted as a modifier"),
 "reject TLDS.LL": ("C03", "TLDS.LL with 3D/ARRAY_2D encoded as another instruction"),
 "reject @!PT": ("C14", "@!PT was accepted and dropped or encoded on instructions that cannot be predicated"),
 "reject misaligned ATOMS": ("C04", "misaligned ATOMS offsets were truncated"),
 "opcode of ICMP": ("C02", "ICMP with the constant buffer as second source used the register form's opcode"),
 "I2I half selector": ("C02", "I2I half selector was rejected with a signed destination"),
 "diagnose video byte selectors": ("C01", "bit-overlap assertion on video byte selectors of 32-bit sources"),
 "encode SUST.D.BA": ("C02", "SUST.D.BA overlapped another field"),
 "diagnose negated operands": ("C01", "bit-overlap assertion on .PO with a negated operand"),
 ".num_gprs takes a number": ("C10", ".num_gprs took a register instead of a number"),
 "reject 0x100000 as IADD3": ("C04", "0x100000 accepted as 20-bit immediate and truncated to 0"),
 "terminate the STG, LDG": ("C01", "keyword tables without terminator were read past their end"),
 "a lone R is": ("C08", "a lone R was accepted as R0"),
 "do not swallow the separator": ("C08", "the separator after a lone P or !P was swallowed"),
 "diagnostic for a stray '!'": ("C17", "the diagnostic for a stray ! was two lines, the second one empty"),
 "backtracking copied": ("C18", "the label table was copied for every instruction: 20,000 labelled instructions took 40 s"),
 "label scan no longer": ("C01", "the label scan read past the end of the text"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, _, s = l.partition(" ")
    if not s.startswith("fix: "):
        continue
    k = [p for p in PROP if s[5:].startswith(p)]
    assert len(k) == 1, s
    out.append("fixed: property=%s %s %s" % (PROP[k[0]][0], h, PROP[k[0]][1]))
assert len(out) == len(PROP), set(PROP)
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
