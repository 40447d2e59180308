#!/usr/bin/env python3
"""mkseed.py FILE.json... : builds seeded/<id>/ from {id, property, needs, what_it_breaks, edits:[[file,old,new]...], body} (body with //LIB gets tools/demo/lib.rs)"""
import sys, os, subprocess, json, shutil
S = "/tmp/seedrepo"
def make(m):
    subprocess.run(f"test -e {S} || cp -a /repo {S}; cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True)
    for f, a, b in m["edits"]:
        t = open(f"{S}/{f}").read(); assert t.count(a) == 1, (m["id"], f, t.count(a), a)
        open(f"{S}/{f}", "w").write(t.replace(a, b))
    df = subprocess.run("git diff", shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout
    d = f"/verif/seeded/{m['id']}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(df)
    json.dump({k: m[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    body = m["body"]
    open(d + "/main.rs", "w").write((open("/verif/tools/demo/lib.rs").read() if "//LIB" in body else "") + body)
    for f in ("demo.sh", "Cargo.lock"): shutil.copy(f"/verif/tools/demo/{f}", d)
    subprocess.run("git checkout -q -- .", shell=True, cwd=S)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
