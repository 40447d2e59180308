#!/usr/bin/env python3
"""seed.py verify ID...   confirm planted bugs in a scratch copy of /repo (compiles, tests pass, demo passes without and fails with)
   seed.py catch ID [PROP] apply to /repo, run the check of its property, undo"""
import sys, os, subprocess, json, shutil, time
V = "/verif"; S = "/tmp/seedrepo"; OPT = "/tmp/seedopt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def prep():
    if not os.path.exists(S): sh(f"cp -a /repo {S}")
    sh(f"cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    os.makedirs(OPT, exist_ok=True)
    for f in os.listdir("/opt/vp"):
        if f.endswith((".sh", ".toml", ".py", ".json")): open(f"{OPT}/{f}", "w").write(open(f"/opt/vp/{f}").read().replace("/repo", S).replace("/opt/vp", OPT))
def demo(i):
    d = f"/tmp/seeddemo/{i}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(f"{V}/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    t = time.time(); r = sh(f"bash {d}/demo.sh", cwd=S, timeout=600); return r.returncode, r.stdout[-400:], time.time() - t
def verify(i):
    prep(); p = f"{V}/seeded/{i}/patch.diff"
    rc0, o0, t0 = demo(i)
    r = sh(f"git apply {p}", cwd=S)
    if r.returncode: return print(i, "DOES NOT APPLY", r.stdout)
    b = sh(f"bash {OPT}/build.sh")
    if b.returncode: sh("git checkout -q -- .", cwd=S); return print(i, "DOES NOT BUILD", b.stdout[-1500:])
    sh(f"bash {OPT}/test.sh /tmp/seedtest.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; res = json.load(open("/tmp/seedtest.json"))
    bad = [t for t in base if t not in res["passed"]]
    rc1, o1, t1 = demo(i)
    sh("git checkout -q -- .", cwd=S)
    ok = rc0 == 0 and rc1 != 0 and not bad
    print(i, "GOOD" if ok else "BAD", f"clean rc {rc0} ({t0:.0f}s) patched rc {rc1} ({t1:.0f}s) failing tests {bad}", "" if ok else o0 + "\n--\n" + o1)
def catch(i, prop=None):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); prop = prop or m["property"]
    assert sh("git -C /repo status --porcelain -uno").stdout == ""
    assert sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff").returncode == 0
    try:
        t = time.time(); r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py {prop}"); 
    finally: sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "rejected", "CHECK-ERROR"))]
    print(i, prop, "rc", r.returncode, f"{time.time()-t:.0f}s", "CAUGHT" if r.returncode == 1 else "MISSED"); print("\n".join(x[:300] for x in v[:3]))
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        for i in sys.argv[2:]: verify(i)
    else: catch(*sys.argv[2:])
