"""Validates the specification (nxv/isa.py, nxv/refasm.py) against upstream's test vectors."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nxv import refasm, isa

src = open("/repo/tests/CMakeLists.txt").read()
ok = bad = 0
forms = set()
for m in re.finditer(r'^\s*"(.*)"\s*$', src, re.M):
    t = m.group(1)
    mm = re.match(r"0x([0-9a-fA-F]+) (.*)$", t)
    if mm:
        r = refasm.assemble(mm.group(2) + ";")
        if not r.ok or r.words[1] != int(mm.group(1), 16):
            bad += 1
            print("MISMATCH", t, r.why, hex(r.words[1]) if r.ok else "")
        else:
            ok += 1
            forms.add(r.stmts[0].form.index)
    else:
        r = refasm.assemble(t + ";")
        if r.ok:
            bad += 1
            print("ACCEPTED", t)
        else:
            ok += 1
print("%d vectors agree, %d disagree; %d of %d forms have a vector" %
      (ok, bad, len(forms), len(isa.FORMS)))
print("forms without vector:", [(f.mnemonic, f.index) for f in isa.FORMS if f.index not in forms])
sys.exit(bad != 0)
