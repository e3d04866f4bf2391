#!/usr/bin/env python3
"""known_findings.txt: 'fixed:' lines from /repo's fix commits, plus the findings recorded by hand in KNOWN."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(p.split(":") for p in """9079065:C19 0e5fa87:C18 4330060:C17 4bbbcf3:C17 6d564b6:C16 4ee265f:C01 f0f3fb1:C01 8228871:C01 eb09df4:C01 45a40ba:C01 8f3cf5d:C21
58b992d:C01 b0de3d7:C07 589b6f9:C07 9928b7b:C07 12a8960:C07 88992f5:C07 72cf1f6:C23 8e6fb7d:C04 ce435ac:C04 4c2eec6:C05 51ef533:C23 55841b3:C23 32e42b5:C23
6ff505d:C23 fd3da5c:C23 f3008f5:C23 c81aea2:C07 76f7882:C06 8598ddd:C01 ff27a91:C05 9508518:C03 5108a75:C04 69dcee9:C04 9405765:C21 67b6eb8:C20 6812430:C20 3cb45c0:C20
6a19d65:C20 f362567:C20 4dfa104:C06 30afc27:C06 a53a83c:C06 6f5e5ca:C06 4fe4f84:C06 f203a0e:C06 2bd3741:C23 f58feb6:C23 066ad83:C23 d3f246b:C23 63f7228:C23 c78683a:C23
f2c7b76:C23 6913692:C12 5a38d7d:C10 9d4e476:C13 fa05b43:C15 5f2cee6:C15 b3be50a:C15 0bec6f5:C12 f089b41:C15 79d9e89:C15 3e05f23:C11 5cb4c86:C11 93f149e:C12 49896a3:C11
3a64103:C10 25830af:C12 852ea80:C10 59ec597:C14 4c774ba:C10 f6e0d80:C15 eca5b1a:C10 9b87626:C12 b86056d:C12 b799f0a:C12 3d64e6c:C14 569c615:C22 637f588:C22 3a1e3a5:C22 ededbb1:C22 37fcd05:C22 5ab9087:C22 e52a3a9:C22 65be313:C22 5ddc1cb:C22 10e78a5:C22 55baf2a:C07 c5dc862:C09 da01229:C01 9d2fe59:C20 9c6a06d:C01""".split())
KNOWN = []          # "known: property=<id> class=<violation class> <what fails>"
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = ["# Genuine defects of CCGL found with these checks. 'fixed' entries suppress nothing.", "# known: property=<id> class=<violation class> <what fails>"]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    for k in PROP:
        if k.startswith(h) or h.startswith(k): out.append("fixed: property=%s %s did not hold before: %s" % (PROP[k], k, s[5:])); break
    else: raise SystemExit("no property for " + l)
out += KNOWN
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
