#!/usr/bin/env python3
"""tools/batch.py FILE [NAME...]: FILE defines SEEDS = [dict(name, prop, edits=[(file, old, new)...], needs, breaks, demo)].
Plants each of them (scratch copy in /tmp/seedwork/repo) and reports."""
import subprocess, sys, runpy
ns = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
W = "/tmp/seedwork/repo"
for s in ns["SEEDS"]:
    if only and s["name"] not in only:
        continue
    subprocess.run(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD", shell=True, check=True)
    ok = True
    for f, old, new in s["edits"]:
        p = f"{W}/src/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["name"], "OLD TEXT FOUND", t.count(old), "TIMES in", f); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    open("/tmp/seedwork/needs", "w").write(s["needs"])
    open("/tmp/seedwork/breaks", "w").write(s["breaks"])
    open("/tmp/seedwork/demo.rs", "w").write('#[path = "common.rs"]\nmod common;\nuse common::*;\nuse miniboosts::prelude::*;\nuse miniboosts::research::*;\nuse std::ops::ControlFlow;\n\nfn main() {\n' + s["demo"].strip("\n") + "\n}\n")
    subprocess.run(["/verif/tools/plant.sh", s["name"], s["prop"]])
