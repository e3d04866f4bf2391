#!/bin/bash
# symbolise the frames of a replay file's message: sym.sh REPLAY.json
python3 - "$1" <<'P'
import json,sys,re,subprocess
d=json.load(open(sys.argv[1])); m=d["message"]
print(d["class"]); 
for b,o in re.findall(r"\((/verif/build/bin/[^+]+)\+(0x[0-9a-f]+)\)",m):
    r=subprocess.run(["addr2line","-Cfe",b,o],stdout=subprocess.PIPE,text=True).stdout.split("\n")
    print("  ",r[0][:110],r[1].replace("/repo/src/",""))
P
