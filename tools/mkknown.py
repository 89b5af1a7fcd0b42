#!/usr/bin/env python3
"""Writes known-findings.txt: repaired defects from the "fix:" commits of
/repo (one line each).  Unrepaired findings, if any, are in FINDINGS."""
import subprocess
M = """5043885 C02
7c75f46 C16
1adeb0f C13
a978fc1 C16
ac5ad48 C20
76bf06e C20
4bf0461 C29
2eef12c C22
8711265 C22
1378c76 C18
0bd7ae4 C25
77f0808 C25
d2004e5 C28
2c3f93f C28
9603d6c C28
bef27cf C26
13690c6 C26
8c25ff1 C14
b799e3b C23
344ce91 C23
82d585f C02
15a93cf C05
01650ed C04
038229f C03
d44f017 C08
5a83424 C08
11df13f C02
df9aaf3 C01
b9ed120 C11
eead75f C12
fbf2878 C12
1491345 C12
ecadfe9 C12
34783dc C12
8775c7b C12
d00cd1d C07
731b180 C06
aca9110 C06
819fd94 C06
55a9766 C06
f4b23ee C01
aa054f0 C03
3a89aa4 C15
04b0cd2 C17
142bfd2 C17
13b8093 C15
22402bd C14
c4dec7f C14
7450599 C14
87db3dc C14
4b7b8cb C14
6875ee2 C14
5fa14c8 C30
edb46f9 C17
32c9e61 C18
e44c3aa C18
6398c05 C28
a6602e1 C28
d6844b8 C28
c08500d C18
fd45b78 C24
6727258 C24
706ac2b C24
285d8e3 C24
4e835fb C24
d47dfb0 C05
0c6d639 C05
f8b30a9 C10
a10b4db C14
37845b2 C25
82e6825 C26
5a9185a C26
cd20542 C23
d80aa55 C23
2644a27 C27
273e14e C27
7495780 C27
ff8a13f C27
e4975be C27
22f17c2 C27
b63b2f2 C27
0280f52 C27
6cb0e1a C25
4d50890 C26
d7323ea C20
06a30a1 C02
57a4315 C08
a9f1ec5 C31
4b75b2c C31
f16290e C31
a3b9cff C32
1bdcd7e C32
524640b C32
3e6d5aa C32
9ef3996 C33
fc19739 C33
6e32a25 C33
8d245bb C33
5223f83 C33
50da097 C33
180a69d C33
68463b1 C33
f4b6839 C33
cee216c C33
5bb711b C34
c5f26ee C34
8ff5749 C34
3fd9ad6 C34
d32fe81 C34
"""
m = dict(l.split() for l in M.strip().split("\n"))
FINDINGS = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s%x09%b%x00", "af963e8..HEAD"],
                     capture_output=True, text=True).stdout
out = ["# One line per genuine defect of TeleMidia/ginga found by the checks.",
       "# 'fixed:' lines record repaired defects and suppress nothing;",
       "# 'KNOWN-FINDING' keys (none at present) are matched against a",
       "# violation's failure key by src/pbt.cpp."]
for rec in log.split("\0"):
    rec = rec.strip("\n")
    if not rec:
        continue
    h, s, b = rec.split("\t", 2)
    if not s.startswith("fix:"):
        continue
    h = h[:7]
    if h not in m:
        print("no property for", h, s)
        continue
    b = " ".join(b.split())
    out.append("fixed: property=%s %s %s%s" % (m[h], h, s[5:], (" -- " + b) if b else ""))
out += FINDINGS
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
