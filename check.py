#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the property's harnesses from /repo's working
tree, runs them under their sanitizers, and decides from what the monitors recorded."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import vbuild
from checks import CHECKS

SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_thread_leaks=0",
}

def first_repo_frame(text):
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/repo/[^\s:]+)", text):
        return re.sub(r"\(.*", "", m.group(1)).strip()[-120:] or os.path.basename(m.group(2))
    return "unknown"

def san_reports(err):
    out = []
    for m in re.finditer(r"(/[^\s:]+:\d+:\d+): runtime error: ([^\n]+)", err):
        kind = re.sub(r"[-+]?\d[\d.e+-]*|nan|inf", "N", m.group(2))[:80]
        out.append((f"ub:{os.path.basename(m.group(1)).split(':')[0]}:{kind}", m.group(0) + "\n" + err[m.end():m.end() + 1500]))
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m: out.append((f"asan:{m.group(1)}:{first_repo_frame(err[m.end():])}", err[m.start():m.start() + 3000]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+)(?:\(pid=\d+\))?(.*?)={18}", err + "=" * 18, re.S):
        out.append((f"tsan:{m.group(1).strip().replace(' ', '-')}:{first_repo_frame(m.group(2))}", m.group(0)[:4000]))
    return out

def run_one(spec, tier, seed, scratch, idx):
    out = f"{scratch}/r{idx}.json"
    wd = f"{scratch}/w{idx}"
    os.makedirs(wd)
    env = dict(os.environ, **SAN)
    env.update({"HOME": wd, "TMPDIR": wd, "VERIF_SCRATCH": wd})
    env.update(spec.get("env", {}))
    for k, v in spec.get("san", {}).items(): env[k] += ":" + v
    if "cmd" in spec:
        cmd = [c.format(V=V, R=vbuild.R, B=vbuild.B) for c in spec["cmd"]] + ["--seed", str(seed), "--tier", tier, "--out", out]
    else:
        cmd = [f"{vbuild.B}/bin/{spec['target']}", "--seed", str(seed), "--tier", tier, "--out", out]
    if spec.get("tsan"): cmd = ["setarch", "-R"] + cmd
    cmd += spec.get("args", [])
    limit = spec.get("limit", 200) if tier == "quick" else spec.get("thorough_limit", 3000)
    res = {"spec": spec, "cmd": cmd, "violations": [], "data": None, "err": ""}
    t0 = time.time()
    errf = f"{scratch}/e{idx}"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, start_new_session=True)
        try: rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
            try: os.killpg(p.pid, signal.SIGTERM)
            except ProcessLookupError: pass
            try: p.wait(timeout=5)
            except subprocess.TimeoutExpired: pass
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    err = open(errf, "rb").read()
    err = (err[:200000] + b"\n...\n" + err[-200000:] if len(err) > 400000 else err).decode(errors="replace")
    res["err"], res["rc"], res["wall"] = err, rc, time.time() - t0
    case = ""
    if os.path.exists(out + ".case"): case = open(out + ".case", errors="replace").read()
    if os.path.exists(out):
        try: res["data"] = json.load(open(out))
        except ValueError: res["data"] = None
    if res["data"]:
        for v in res["data"]["violations"]: res["violations"].append((v["key"], v["detail"], v["count"]))
    reports = san_reports(err)
    seen = set()
    for k, d in reports:
        if k not in seen:
            seen.add(k); res["violations"].append((k, d + ("\ncase: " + case if case else ""), 1))
    if rc is None:
        res["hang"] = True
        res["violations"].append(("hang", f"no result after {limit} s\ncase: {case}\n{err[-1500:]}", 1))
    elif rc == 3: res["internal"] = "harness could not write its result"
    elif rc != 0 and not res["violations"]:
        what = re.search(r"terminate called[^\n]*\n?[^\n]*|Assertion[^\n]*", err)
        name = f"signal{-rc}" if rc < 0 else f"exit{rc}"
        res["violations"].append((f"crash:{name}", (what.group(0) if what else "") + f"\ncase: {case}\n{err[-2500:]}", 1))
    elif rc == 0 and not res["data"]: res["internal"] = "no result file\n" + err[-2000:]
    return res

def known():
    out = {}
    try:
        for line in open(f"{V}/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) key=(\S.*?) :: (.*)$", line.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    except OSError: pass
    return out

def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = CHECKS[pid]
    targets = sorted({r["target"] for r in c["runs"] if "target" in r} | {t for r in c["runs"] for t in r.get("needs", [])})
    if targets:
        rc, out = vbuild.build(targets)
        if rc:
            print(out[-6000:])
            print(f"{pid}: the harnesses do not build")
            sys.exit(2)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(scratch, 0o755)
    try:
        jobs = []
        for r in c["runs"]:
            if tier == "quick" and r.get("thorough_only"): continue
            for k in range(r.get("shards", 1) if tier == "quick" else r.get("thorough_shards", 8 if r.get("shards", 1) > 1 else 4)):
                jobs.append((r, seed * 1000 + k))
        results = [None] * len(jobs)
        par = [i for i, j in enumerate(jobs) if not j[0].get("serial")]
        with cf.ThreadPoolExecutor(8) as ex:
            fs = {ex.submit(run_one, jobs[i][0], tier, jobs[i][1], scratch, i): i for i in par}
            for f in cf.as_completed(fs): results[fs[f]] = f.result()
        for i, j in enumerate(jobs):
            if results[i] is None: results[i] = run_one(j[0], tier, j[1], scratch, i)
        # a run that did not end is repeated alone before it counts
        for i, r in enumerate(results):
            if r.get("hang"):
                results[i] = run_one(jobs[i][0], tier, jobs[i][1], scratch, 1000 + i)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known()
    internal = [r["internal"] for r in results if r.get("internal")]
    viol, found = {}, {}
    for r in results:
        for k, d, n in r["violations"]:
            (found if (pid, k) in kn else viol).setdefault(k, []).append((d, n, r))
    counters, samples, ev, dn = {}, [], 0, 0
    for r in results:
        d = r["data"]
        if not d: continue
        ev += d["evaluations"]; dn += d["distinct"]
        for k, n in d["counters"].items(): counters[k] = counters.get(k, 0) + n
        samples += d["samples"][:3]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": c["rule"], "samples": samples[:12] or ["(no sample)"],
           "observed": counters, "runs": [{"command": " ".join(os.path.basename(x) if "/bin/" in x else x for x in r["cmd"] if not x.startswith("/tmp/")), "exit": r["rc"], "wall_s": round(r["wall"], 2)} for r in results]}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
               "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in found: print(f"KNOWN-FINDING: property={pid} {k} -- {kn[(pid, k)]}")
    if viol:
        os.makedirs(f"{V}/replays", exist_ok=True)
        path = f"{V}/replays/{pid}.txt"
        with open(path, "w") as f:
            for k, xs in viol.items():
                d, n, r = xs[0]
                f.write(f"== {k} (seen {sum(x[1] for x in xs)} times)\ncommand: {' '.join(r['cmd'])}\n{d}\n\n")
                print(f"  {k}: {d.strip()[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if internal:
        print(f"{pid}: {internal[0]}")
        sys.exit(2)
    print(f"{pid}: held on {ev} cases ({dn} distinct), {time.time() - t0:.1f} s")

if __name__ == "__main__": main()
