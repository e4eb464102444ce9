#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo, lets the symbolic engine explore it,
replays what it reports against the ordinary build, and writes the evidence."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, GROUPS
B = os.path.join(ROOT, "build")
T0 = time.time()

def die(msg, code=2):
    print("ERROR:", msg, flush=True)
    sys.exit(code)

def sh(cmd, env=None, cwd=ROOT, log=None, timeout=700):
    e = dict(os.environ); e.pop("RUSTFLAGS", None); e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if log:
        with open(os.path.join(B, log), "w") as f: f.write(r.stdout)
    return r

class Lock:
    def __init__(s, n): s.p = os.path.join(B, n + ".lock")
    def __enter__(s): s.f = open(s.p, "w"); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

def engine():
    with Lock("engine"):
        r = sh("cargo build --release --offline", cwd=ROOT + "/engine", env={"CARGO_TARGET_DIR": B + "/engine"}, log="engine.log")
        if r.returncode: die("engine does not build\n" + r.stdout[-3000:])
    return B + "/engine/release/symx"

def sysroot():
    h = hashlib.sha256()
    for f in ("tools/patch_std.py", "tools/sysroot.sh", "tools/std/fs.rs", "tools/std/stdio.rs"): h.update(open(os.path.join(ROOT, f), "rb").read())
    h.update(subprocess.run(["rustc", "-vV"], stdout=subprocess.PIPE).stdout)
    want, out = h.hexdigest(), B + "/sysroot"
    with Lock("sysroot"):
        stamp = out + "/stamp"
        if os.path.exists(stamp) and open(stamp).read() == want: return out
        for p in ("/sysroot", "/sysroot.work", "/sysroot.tmp"): shutil.rmtree(B + p, ignore_errors=True)
        r = sh(["bash", ROOT + "/tools/sysroot.sh", out], log="sysroot.log")
        if r.returncode: die("the standard library does not build\n" + r.stdout[-3000:])
        for d in glob.glob(B + "/t-*/"): shutil.rmtree(d, ignore_errors=True) # built against the old one
        open(stamp, "w").write(want)
        shutil.rmtree(B + "/sysroot.work", ignore_errors=True)
    return out

def build(cmd, feats, **kw):
    """Everything, or if some part of the code under test has changed shape, the part that is needed."""
    r = sh(cmd, **kw)
    if r.returncode and feats: r = sh(cmd + " --no-default-features --features " + feats, **kw)
    return r

def wasm(g, root, feats=None):
    with Lock("t-" + g):
        r = build("cargo build --lib --release --offline --target wasm64-unknown-unknown", feats, cwd=f"{ROOT}/harness/{g}", log=g + "-wasm.log",
               env={"RUST_BACKTRACE": "0", "RUSTC_BOOTSTRAP": "1", "CARGO_TARGET_DIR": f"{B}/t-{g}", "RUSTFLAGS": f"--sysroot {root} -Awarnings"})
        if r.returncode: die(f"the {g} harness does not build from /repo\n" + r.stdout[-4000:])
    return f"{B}/t-{g}/wasm64-unknown-unknown/release/{g}.wasm"

def native(g, feats=None):
    with Lock("n-" + g):
        r = build("cargo build --offline", feats, cwd=f"{ROOT}/harness/{g}", log=g + "-native.log", env={"CARGO_TARGET_DIR": f"{B}/n-{g}", "RUSTFLAGS": "-Awarnings", "RUSTC_BOOTSTRAP": "1"})
        if r.returncode: die(f"the {g} replay does not build from /repo\n" + r.stdout[-4000:])
    return f"{B}/n-{g}/debug/{g}-replay"

def replay(exe, harness, params, draws, timeout=60, extra={}):
    e = dict(os.environ, **extra, SYM_DRAWS=",".join(map(str, draws)), SYM_PARAMS=",".join(map(str, params)), RUST_BACKTRACE="0")
    tmp = tempfile.mkdtemp(prefix="replay-") # harnesses write files where they run
    try: r = subprocess.run([exe, harness], env=dict(e, TMPDIR=tmp), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=tmp)
    except subprocess.TimeoutExpired: return "hang", "", None
    finally: shutil.rmtree(tmp, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    emit = next((l[5:] for l in out.splitlines() if l.startswith("EMIT ")), None)
    why = " ".join(l for l in out.splitlines() if l.startswith(("FAIL", "PANIC", "MESSAGE")))
    return r.returncode, why, emit

def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PLAN[prop]
    os.makedirs(B, exist_ok=True); os.makedirs(ROOT + "/evidence", exist_ok=True)
    rd = f"{ROOT}/evidence/replays"; os.makedirs(rd, exist_ok=True)
    for f in glob.glob(f"{rd}/{prop}-*"): os.remove(f)
    ev_path = f"{ROOT}/evidence/{prop}.json"
    if os.path.exists(ev_path): os.remove(ev_path)
    jobs = list(p["quick"]) + (list(p.get("thorough", [])) if tier == "thorough" else [])
    groups = sorted({j[0] for j in jobs})
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fn = {g: ex.submit(native, g, p.get("features")) for g in groups}
        root = sysroot()
        fw = {g: ex.submit(wasm, g, root, p.get("features")) for g in groups}
        symx = fe.result(); exe = {g: f.result() for g, f in fn.items()}; mod = {g: f.result() for g, f in fw.items()}
    built = time.time() - T0
    print(f"{prop} {tier}: built from /repo in {built:.0f} s", flush=True)
    budget = 3600 * 3 if tier == "thorough" else 560
    covers, totals, funcs, runs, bad, unrepro, samples, mism, incomplete = {}, {}, set(), [], [], [], [], [], []
    validated = 0
    known_seen = {}
    for n, (g, h, params, *lim) in enumerate(jobs):
        t = lim[0] if lim else (120 if tier == "quick" else 900)
        left = budget - (time.time() - T0)
        if left < 5: incomplete.append(f"{h} {params}: no time left"); continue
        out = f"{B}/{prop}-{n}.json"
        cmd = [symx, "--wasm", mod[g], "--export", h, "--params", ",".join(map(str, params)), "--time", str(int(min(t, left))), "--seed", str(seed), "--out", out] + GROUPS[g].get("args", []) + p.get("args", [])
        for again in range(3): # z3 itself may crash
            r = sh(cmd, timeout=min(t, left) + 120)
            if r.returncode >= 0: break
            print(f"  {h} {params}: the engine ended with signal {-r.returncode}", flush=True)
        if r.returncode: die(f"engine failed on {h} {params}: rc {r.returncode} {r.stdout[-2000:]}")
        j = json.load(open(out)); os.remove(out)
        for k in ("paths", "pruned", "forks", "instructions", "queries", "sat", "unsat", "unknown", "cache_hits", "asserts"): totals[k] = totals.get(k, 0) + j[k]
        totals["solver_s"] = totals.get("solver_s", 0) + j["solver_s"]
        totals["max_call_depth"] = max(totals.get("max_call_depth", 0), j["max_call_depth"])
        for k, v in j["covers"].items(): covers[k] = covers.get(k, 0) + v
        funcs.update(j["functions"])
        runs.append({"harness": h, "params": params, "bound": p["bounds"](h, params) if "bounds" in p else GROUPS[g]["bounds"](h, params), "complete": j["complete"], "paths": j["paths"], "queries": j["queries"], "wall_s": j["wall_s"]})
        if j["incomplete"]: incomplete.append(f"{h} {params}: {j['incomplete']}")
        for k, v in j["known"].items(): known_seen.setdefault(k, (g, h, params, v["draws"]))
        ok = 0
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda s: replay(exe[g], h, params, s["draws"]), j["samples"]))
        for s, (rc, why, emit) in zip(j["samples"], res):
            if rc == 0 and emit == s["emits"]: ok += 1
            else: mism.append(f"{h} {params} draws {s['draws']}: native rc={rc} {why} emits {emit} engine {s['emits']}")
        validated += ok
        if j["samples"]: s = j["samples"][len(j["samples"]) // 2]; samples.append({"harness": h, "params": params, "draws": s["draws"], "observed": s["emits"][:200]})
        for v in j["violations"]:
            rc, why, _ = replay(exe[g], h, params, v["draws"], extra={"SYM_VIOLATION": "1"}) # costs are measured only here
            real = rc == 9 or rc == "hang" or (isinstance(rc, int) and rc < 0)
            (bad if real else unrepro).append({"group": g, "harness": h, "params": params, "draws": v["draws"], "kind": v["kind"], "message": v["msg"], "native": f"rc={rc} {why}", "stack": v["stack"][:12]})
        print(f"  {h} {params}: paths {j['paths']} queries {j['queries']} {'complete' if j['complete'] else 'VIOLATED' if j['violations'] else 'incomplete'} {j['wall_s']:.1f} s", flush=True)
        if bad and tier == "quick": break
    missing = [c for c in p.get("covers", []) if not covers.get(c)]
    findings = json.load(open(ROOT + "/known_findings.json"))["findings"]
    for f in findings:
        if f["property"] == prop and f.get("label") in known_seen: print(f"KNOWN-FINDING: property={prop} {f['what']}")
    unlisted = [k for k in known_seen if not any(f["property"] == prop and f.get("label") == k for f in findings)]
    for k in unlisted:
        g, h, params, draws = known_seen[k]
        bad.append({"group": g, "harness": h, "params": params, "draws": draws, "kind": "unlisted finding", "message": k, "native": "", "stack": []})
    for i, v in enumerate(bad):
        v["how"] = f"SYM_VIOLATION=1 SYM_DRAWS={','.join(map(str, v['draws']))} SYM_PARAMS={','.join(map(str, v['params']))} {exe[v['group']]} {v['harness']}"
        json.dump(v, open(f"{rd}/{prop}-{i}.json", "w"), indent=1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(bad),
          "assumptions": p.get("assumes", []) + GROUPS[groups[0]].get("assumes", []),
          "coverage": {"states": totals.get("paths", 0), "transitions": totals.get("forks", 0), "traces_validated_against_impl": validated, "samples": samples[:12],
                       "exhaustive": not incomplete and not bad, "bounds": p.get("bound_text", ""), "runs": runs, "incomplete": incomplete, "queries": totals.get("queries", 0), "sat": totals.get("sat", 0),
                       "unsat": totals.get("unsat", 0), "unknown": totals.get("unknown", 0), "queries_answered_from_cache": totals.get("cache_hits", 0), "solver_s": round(totals.get("solver_s", 0), 2),
                       "instructions_executed": totals.get("instructions", 0), "assertions_decided": totals.get("asserts", 0), "max_call_depth": totals.get("max_call_depth", 0),
                       "functions_encoded": sorted(funcs), "covers": covers, "build_s": round(built, 1)}}
    json.dump(ev, open(ev_path, "w"), indent=1)
    if bad:
        v = bad[0]
        print(f"  {v['kind']}: {v['message']}  [{v['harness']} {v['params']} draws {v['draws']}] native: {v['native']}")
        print(f"VIOLATION property={prop} replay={rd}/{prop}-0.json", flush=True)
        sys.exit(1)
    if unrepro: die("the engine reports what the real code does not do: " + json.dumps(unrepro[0]))
    if mism: die("engine and real code disagree: " + mism[0])
    if missing and not incomplete: die(f"never reached: {missing}")
    if totals.get("paths", 0) == 0: die("nothing explored: " + "; ".join(incomplete))
    print(f"{prop}: held on {totals['paths']} paths, {totals['queries']} queries, {validated} traces replayed natively" + (f"; incomplete: {incomplete}" if incomplete else ""))

if __name__ == "__main__": main()
