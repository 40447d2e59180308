#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current tree with the TLA+ specifications in spec/:
  1. builds the harness (harness/) against /repo;
  2. has TLC check the models the property rests on;
  3. runs the real code, several processes side by side, recording traces;
  4. has TLC decide whether each recorded line is a step the specification allows.
Exit 0: held.  Exit 1 with a VIOLATION line: a trace was rejected.  Exit 2: an error of the check itself.
"""
import sys, os, json, subprocess, time, re, shutil, signal, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from tools.registry import PROPS
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
BEGIN = ("start", "case", "new", "ra", "grow", "capi", "adapter", "stream", "cli", "models", "coder", "sweep", "speeds", "reading")   # events that begin a recorded execution
T0 = time.time()

def die(msg, extra=""):
    print("CHECK-ERROR: " + msg); print(extra[-6000:]); sys.stdout.flush(); os._exit(2)

def env():
    e = dict(os.environ)
    e["HOME"] = "/root"; e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"; e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "LD_LIBRARY_PATH", "RUSTC_WRAPPER"): e.pop(k, None)
    return e

def build(extra):
    for cmd in [["cargo", "build", "--release", "--offline", "-q"]] + extra:
        p = subprocess.run(cmd, cwd=V + "/harness", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0: die("the harness does not build: " + " ".join(cmd), "\n".join(l for l in p.stdout.splitlines() if "warning" not in l))

def tlc(module, cfg, meta, envx=None, workers=1, heap="3g", args=(), timeout=880):
    e = env(); e["DICTIONARY"] = V + "/data/dictionary.json"; e["CONTEXTS"] = V + "/data/contexts.json"; e.update(envx or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"] + list(args) + [module]
    os.makedirs(meta, exist_ok=True)
    try:
        p = subprocess.run(cmd, cwd=V + "/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        die("TLC timed out on " + module + " " + cfg)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", p.stdout)
    g = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
    return p.returncode, p.stdout, g

UNFIT = re.compile(r"OutOfMemory|StackOverflow|stack overflow|Parsing or semantic|Could not (?:parse|read)|No space left|Cannot allocate")
def tlc_trace(module, cfg, meta, trace, heap, timeout):
    """TLC over a recorded trace. A recorded value outside the domain of the specification's operators is no step of it either:
    TLC then reports an error of evaluation (and would write out every state before it, which can take for ever)."""
    e = env(); e["DICTIONARY"] = V + "/data/dictionary.json"; e["CONTEXTS"] = V + "/data/contexts.json"; e["TRACE"] = trace
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", "1", "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", module]
    os.makedirs(meta, exist_ok=True)
    p = subprocess.Popen(cmd, cwd=V + "/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    late = threading.Timer(timeout, p.kill); late.start()
    o = []; at = 0; bad = False; after = 0
    for l in p.stdout:
        m = re.match(r'<<"AT", (\d+)>>', l)
        if m: at = max(at, int(m.group(1))); continue
        o.append(l)
        if l.startswith("Error:"): bad = True
        if bad: after += 1
        if bad and (after > 60 or re.match(r"(Error: )?The behavior up to this point|State 1:", l.strip())): p.kill(); break
    p.stdout.close(); p.wait(); in_time = late.is_alive(); late.cancel(); o = "".join(o)
    if not in_time: die("TLC timed out on " + module + " " + cfg)
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', o)
    g = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o)
    g = [int(x.replace(",", "")) for x in g[-1]] if g else [0, 0]
    if m: return int(m.group(1)), int(m.group(2)), g, None
    if not bad or UNFIT.search(o): die("TLC could not decide the trace " + trace, o)
    return at, -1, g, " ".join(o[o.index("Error:"):].split())[:600]

def load_known(pid):
    """known-findings file: 'known: property=<id> kind=<panic|...> match=<regex> :: text' """
    out = []
    f = V + "/KNOWN_FINDINGS"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def run_harness(pid, part, shard, work, seed, tier, nsh):
    out = f"{work}/{part['cmd']}.{shard}.ndjson"
    cmd = [V + f"/target/{part.get('bin', 'release')}/vh", part["cmd"], "--seed", str(seed), "--tier", tier, "--shard", f"{shard}/{nsh}", "--out", out]
    lim = 800 if tier == "quick" else 6 * 3600
    e = env(); e["VH_SCRATCH"] = f"{work}/scratch.{part['cmd']}.{shard}"; os.makedirs(e["VH_SCRATCH"], exist_ok=True)
    e["VH_BIN"] = V + "/target/release"
    log = open(out + ".log", "w")
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=log, stderr=subprocess.STDOUT, timeout=lim)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        die("the harness timed out: " + " ".join(cmd))
    finally:
        log.close(); shutil.rmtree(e["VH_SCRATCH"], ignore_errors=True)
    if rc == -signal.SIGKILL or rc == 2: die(f"the harness was ended ({rc}): " + " ".join(cmd), open(out + ".log", errors="replace").read())
    if rc != 0:
        with open(out, "rb+") as f:      # an abort or a signal in the code under test ends the trace
            data = f.read(); cut = data.rfind(b"\n") + 1; f.truncate(cut); f.seek(cut)
            f.write(json.dumps({"ev": "crash", "rc": rc}).encode() + b"\n")
    return out, cmd

def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    work = f"{V}/work/{pid}"
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    build(P.get("build", []))
    tb = time.time()
    known = load_known(pid); seen_known = {}
    stats = {"states": 0, "transitions": 0, "traces": 0, "events": {}, "models": [], "parts": []}
    violations = []; samples = []
    pool = ThreadPoolExecutor(16)
    # --- the models, while the code runs
    def model(m):
        t = time.time()
        cfg = m.get(tier, m["cfg"]) if isinstance(m.get(tier), str) else m["cfg"]
        rc, o, g = tlc(m["module"], cfg, f"{work}/tlc.{cfg}", workers=m.get("workers", 2), heap=m.get("heap", "6g"), timeout=880 if tier == "quick" else 6 * 3600)
        if rc != 0 or "No error has been found" not in o: die(f"TLC does not accept the model {m['module']} / {cfg}", o)
        shutil.rmtree(f"{work}/tlc.{cfg}", ignore_errors=True)
        return m, cfg, g, time.time() - t
    mf = [pool.submit(model, m) for m in P.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
    # --- and the ones known to be wrong, which TLC has to find fault with
    def refute(c):
        t = time.time()
        m = re.sub(r"\d+\.cfg$", "", c) + ".tla"
        if not os.path.exists(V + "/spec/" + m): m = m.replace("Broken", "Design")
        rc, o, g = tlc(m, c, f"{work}/tlc.{c}", workers=1, timeout=800)
        w = re.search(r"(?:Invariant|Temporal property|Action property) (\w+) (?:is|was) violated", o)
        if not w: die(f"TLC finds nothing wrong with {m} / {c}", o)
        shutil.rmtree(f"{work}/tlc.{c}", ignore_errors=True)
        return c, w.group(1), round(time.time() - t, 1)
    wf = [pool.submit(refute, c) for c in P.get("refute", [])]
    # --- behaviours generated from the specification, for the harness to replay
    for g in P.get("generate", []):
        out = f"{work}/{g['out']}"
        num = g["num"] * (20 if tier == "thorough" else 1)
        rc, o, st = tlc(g["module"], g["cfg"], f"{work}/tlc.gen", {"GEN_OUT": out, "GEN_SEED": str(seed)}, workers=1,
                        args=["-simulate", f"num={num}", "-depth", str(g.get("depth", 100)), "-seed", str(seed)])
        if not os.path.exists(out): die("TLC generated no behaviours: " + g["module"], o)
        os.environ["VH_" + g["out"].split(".")[0].upper()] = out
    # --- the real code
    for part in P["parts"]:
        if part.get("thorough_only") and tier != "thorough": continue
        nsh = part.get("shards", SHARDS)
        th = time.time()
        with ThreadPoolExecutor(part.get("parallel", SHARDS)) as ex:
            outs = list(ex.map(lambda s: run_harness(pid, part, s, work, seed, tier, nsh), range(nsh)))
        th = time.time() - th; tt = time.time()
        def validate(oc):
            out, cmd = oc
            lines = open(out).read().splitlines()
            keep = []
            for l in lines:
                if '"ev":"panic"' in l[:16] or '"ev":"finding"' in l[:18]:
                    hit = [t for rx, t in known if rx.search(l)]
                    if hit:
                        for t in hit: seen_known[t] = seen_known.get(t, 0) + 1
                        continue
                keep.append(l)
            if len(keep) != len(lines): open(out, "w").write("".join(l + "\n" for l in keep))
            if not keep: die("empty trace " + out, open(out + ".log").read())
            done, total, g, err = tlc_trace(part["spec"], part.get("cfg", part["spec"] + ".cfg"), out + ".tlc", out, part.get("heap", "3g"), 880 if tier == "quick" else 6 * 3600)
            shutil.rmtree(out + ".tlc", ignore_errors=True)
            return out, cmd, keep, done, total, g, err
        with ThreadPoolExecutor(SHARDS) as ex: res = list(ex.map(validate, outs))
        ncases = 0; nev = 0
        for out, cmd, keep, done, total, g, err in res:
            stats["states"] += g[1]; stats["transitions"] += g[0]
            for l in keep[:done]:
                m = re.match(r'\{"ev":"(\w+)"', l)
                stats["events"][m.group(1)] = stats["events"].get(m.group(1), 0) + 1
                nev += 1
                if m.group(1) in BEGIN: ncases += 1
            if done != total:
                a = min(done, len(keep) - 1)
                while a > 0 and not (re.match(r'\{"ev":"(\w+)"', keep[a]) or [0, 0])[1] in BEGIN: a -= 1
                rp = f"{V}/work/replay"; os.makedirs(rp, exist_ok=True)
                rf = f"{rp}/{pid}-{os.path.basename(out)}"
                with open(rf, "w") as f:
                    f.write(json.dumps({"property": pid, "spec": part["spec"], "command": " ".join(cmd), "rejected_line": done + 1, "rejected": err or keep[done][:2000]}) + "\n")
                    for l in keep[a:done + (60 if err else 1)]: f.write(l + "\n")
                violations.append((rf, keep[a][:300], err or keep[done][:600]))
            elif len(samples) < 6:
                samples += [l[:300] for l in keep[:2]]
        stats["traces"] += ncases
        stats["parts"].append({"cmd": part["cmd"], "spec": part["spec"], "cases": ncases, "lines": nev, "harness_s": round(th, 1), "tlc_s": round(time.time() - tt, 1)})
        if not os.environ.get("VERIF_KEEP"):
            for out, *_ in res: os.remove(out)
    for f in mf:
        m, cfg, g, dt = f.result()
        stats["states"] += g[1]; stats["transitions"] += g[0]
        stats["models"].append({"module": m["module"], "cfg": cfg, "distinct_states": g[1], "states_generated": g[0], "wall_s": round(dt, 1)})
    refuted = [dict(zip(("cfg", "violates", "wall_s"), f.result())) for f in wf]
    ok = not violations
    missing = [e for e in P.get("must_see", []) if e not in stats["events"]]
    if ok and missing: die("the run exercised none of: " + ", ".join(missing))
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
          "coverage": {"states": stats["states"], "transitions": stats["transitions"], "traces_validated_against_impl": stats["traces"], "samples": samples or [violations[0][2]],
                       "models": stats["models"], "refuted": refuted, "trace_parts": stats["parts"], "trace_events": stats["events"], "build_s": round(tb - T0, 1)},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for rx, t in known: print(f"KNOWN-FINDING: property={pid} {t}" + (f" (seen {seen_known[t]} times)" if t in seen_known else ""))
    for p in stats["parts"]: print("part", p)
    for m in stats["models"]: print("model", m)
    for m in refuted: print("refuted", m)
    for rf, st, rej in violations:
        print("rejected:", rej); print("   in:", st)
        print(f"VIOLATION property={pid} replay={rf}")
    print(f"{pid} {tier} {'held' if ok else 'VIOLATED'} in {time.time()-T0:.1f}s")
    sys.stdout.flush()
    os._exit(0 if ok else 1)

if __name__ == "__main__":
    main()
