#!/usr/bin/env python3
"""newseed.py ID PROP 'needs' 'breaks'  < main body: takes the diff of the working tree of /tmp/seedrepo and main.rs from stdin"""
import sys, os, subprocess, json, shutil
i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
df = subprocess.run("git diff -- src c", shell=True, cwd="/tmp/seedrepo", stdout=subprocess.PIPE, text=True).stdout
assert df.strip(), "no diff"
open(d + "/patch.diff", "w").write(df)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
body = sys.stdin.read()
open(d + "/main.rs", "w").write((open("/verif/tools/demo/lib.rs").read() if "//LIB" in body else "") + body)
for f in ("demo.sh", "Cargo.lock"): shutil.copy(f"/verif/tools/demo/{f}", d)
subprocess.run("git checkout -q -- .", shell=True, cwd="/tmp/seedrepo")
