#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--configs a,b] [--groups g,h]
Decides one property of sljit by symbolic execution of the bitcode of /repo's current tree (see DESIGN.md)."""
import sys, os, json, subprocess, time, tempfile, shutil, hashlib, re, argparse, fnmatch, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import PROPS, CONFIGS
REPO = "/repo"; CORES = 8
SJ = V + "/build/symjit"

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build_engine():
    if os.path.exists(SJ): return
    r = sh("mkdir -p ../build && make -j8", shell=True, cwd=V + "/engine")
    if not os.path.exists(SJ): print(r.stdout[-3000:]); sys.exit(2)

def build_bc(cfg, out, harness="harness.c", extra=()):
    c = CONFIGS[cfg]
    cmd = ["clang", "--target=" + c["triple"]] + c["cflags"] + c["inc"] + ["-I" + V + "/engine", "-I" + REPO + "/sljit_src", "-I" + REPO + "/regex_src", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-DSLJIT_CONFIG_%s=1" % c["macro"], "-DSLJIT_VERBOSE=0"] + c["defs"] + c.get("bcdefs", []) + list(extra) + ["-emit-llvm", "-c", V + "/engine/" + harness, "-o", out]
    return sh(cmd)
def build_replay(cfg, out, asan=False):
    c = CONFIGS[cfg]
    cmd = [c["cc"]] + c["ccflags"] + ["-O1", "-w", "-I" + V + "/replay", "-I" + REPO + "/sljit_src", "-I" + REPO + "/regex_src", V + "/replay/" + c.get("rsrc", "replay.c"), "-o", out] + c["defs"] + c.get("rdefs", []) + ["-DSLJIT_CONFIG_%s=1" % c["macro"]]
    if asan: cmd += ["-fsanitize=address", "-DNO_RUN=1"]
    else: cmd += [] if c["qemu"] == "" and cfg.startswith("x86_64") else ["-static"]
    r = sh(cmd + ["-DTOTALS=1", "-lpthread"])
    return r if r.returncode == 0 or not c.get("rdefs") else sh(cmd + ["-lpthread"])

def fingerprint(bc):
    """hash per function of the bitcode (names of metadata and attributes stripped), to decide where to spend the time"""
    r = subprocess.run(["llvm-dis-18", "-o", "-", bc], stdout=subprocess.PIPE, text=True, errors="replace")
    if r.returncode != 0: r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-dis", "-o", "-", bc], stdout=subprocess.PIPE, text=True, errors="replace")
    fns = {}; cur = None; glob = []
    for l in r.stdout.splitlines():
        if l.startswith("define "):
            m = re.search(r"@([\w.$]+)\(", l); cur = m.group(1) if m else "?"; fns[cur] = hashlib.sha1()
        elif l.startswith("@"): glob.append(re.sub(r", !.*|#\d+", "", l))
        if cur: fns[cur].update(re.sub(r",? ![\w.]+( ![\d]+)?|#\d+|@\.str[.\d]*|@__PRETTY[\w.]*|; preds.*", "", l).encode()); 
        if l == "}": cur = None
    d = {k: v.hexdigest()[:10] for k, v in fns.items()}
    d["@globals"] = hashlib.sha1("\n".join(g for g in glob if not g.startswith("@.str") and not g.startswith("@__PRETTY") and not g.startswith("@hz_consts")).encode()).hexdigest()[:10]
    return d

def run_job(job, scratch, tier, seed, extra=()):
    cfg, group, sh_i, sh_n, budget, focus = job
    out = "%s/%s.%s.%d.jsonl" % (scratch, cfg, group, sh_i)
    cmd = [SJ, "--bc", "%s/%s.bc" % (scratch, cfg), "--arch", CONFIGS[cfg]["arch"], "--variant", CONFIGS[cfg].get("variant", ""), "--prop", group, "--shard", "%d/%d" % (sh_i, sh_n), "--budget", str(budget), "--seed", str(seed)]
    if tier == "thorough": cmd.append("--thorough")
    cmd += list(extra)
    if focus: cmd += ["--focus", ",".join(focus)]
    with open(out, "w") as f:
        try: r = subprocess.run(cmd, stdout=f, stderr=subprocess.DEVNULL, timeout=budget + 60)
        except subprocess.TimeoutExpired: return job, out, -9
    return job, out, r.returncode

def replay(block, binary, qemu):
    with tempfile.TemporaryDirectory() as d:
        try: r = subprocess.run(([qemu] if qemu else []) + [binary], input=block, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, cwd=d, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99"))
        except subprocess.TimeoutExpired: return "reproduced", "timeout"
    o = r.stdout[-1500:]
    if r.returncode == 0: return "ok", o
    if r.returncode == 77: return "cannot", o
    return "reproduced", ("exit %d " % r.returncode) + o

def known_findings(pid):
    k = []
    p = V + "/known_findings.json"
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("status") == "open" and e["property"] == pid: k.append(e)
    return k

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--configs"); ap.add_argument("--groups"); ap.add_argument("--budget", type=float); ap.add_argument("--keep", action="store_true"); ap.add_argument("--record-baseline", action="store_true"); ap.add_argument("--all", action="store_true", help="development: do not stop at the first violation"); ap.add_argument("--task")
    a = ap.parse_args(); t0 = time.time(); pid = a.pid; P = PROPS[pid]; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build_engine()
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid); ev_dir = V + "/evidence"; os.makedirs(ev_dir, exist_ok=True)
    rdir = ev_dir + "/replay"; os.makedirs(rdir, exist_ok=True)
    try:
        jobs_def = [(g, c) for g, cs in P["groups"] for c in cs if (not a.configs or c in a.configs.split(",")) and (not a.groups or g in a.groups.split(","))]
        cfgs = sorted({c for _, c in jobs_def})
        ex = cf.ThreadPoolExecutor(CORES)
        bcs = {c: ex.submit(build_bc, c, "%s/%s.bc" % (scratch, c)) for c in cfgs}
        bad = []
        for c, f in bcs.items():
            r = f.result()
            if r.returncode: bad.append((c, r.stdout[-1500:]))
        if bad:
            for b in bad: print("build failed for %s:\n%s" % b)
            if len(bad) == len(cfgs): sys.exit(2)
            cfgs = [c for c in cfgs if c not in [b[0] for b in bad]]; jobs_def = [(g, c) for g, c in jobs_def if c in cfgs]
        fps = dict(zip(cfgs, ex.map(lambda c: fingerprint("%s/%s.bc" % (scratch, c)), cfgs)))
        bp = V + "/baseline_fp.json"; base = json.load(open(bp)) if os.path.exists(bp) else {}
        if a.record_baseline:
            base.update(fps); json.dump(base, open(bp, "w"), indent=0, sort_keys=True); print("baseline recorded for", cfgs); return 0
        focus = {}
        for c in cfgs:
            b = base.get(c, {}); ch = [k for k in fps[c] if b.get(k) != fps[c][k] and k != "@globals"] + [k for k in b if k not in fps[c]]
            g = b.get("@globals") != fps[c]["@globals"]
            focus[c] = None if (not ch and not g) else ("*" if g and not ch else ch)
        changed = [c for c in cfgs if focus[c] is not None]
        mult = 12.0 if tier == "thorough" else 1.0
        wall = (a.budget or P.get("wall", 45)) * mult; total = wall * CORES
        # weights: configurations whose code differs from the recorded baseline receive most of the time
        jobs = []; W = {}
        for g, c in jobs_def: W[(g, c)] = P.get("weight", {}).get(g, 1.0) * P.get("cweight", {}).get(c, 1.0)
        sw = sum(W.values())
        for g, c in jobs_def:
            b = total * W[(g, c)] / sw
            if c in changed and tier == "quick":
                nch = sum(W[k] for k in W if k[1] in changed)
                b2 = P.get("changed_wall", 150) * CORES * W[(g, c)] / nch
                b2 = max(b, b2); n = max(1, min(8, round(b2 / 60.0))); 
                fo = [] if focus[c] == "*" else focus[c]
                for i in range(n): jobs.append((c, g, i, n, b2 / n, fo[:60]))
            else:
                n = max(1, round(b / (120.0 if tier == "thorough" else wall)))
                for i in range(n): jobs.append((c, g, i, n, b / n, []))
        jobs.sort(key=lambda j: (j[0] not in changed, -j[4]))
        tot = dict(tasks=0, complete=0, paths=0, obl=0, triv=0, steps=0, ir=0, queries=0, sat=0, unsat=0, unknown=0, exact=0, solver_s=0.0, skipped=0, unsupported=0)
        percfg = {}; fns = set(); incomplete = []; viols = []; samples = []; failed = []; hardstop = t0 + 780 if tier == "quick" else t0 + 6 * 3600
        def collect(job, out, rc):
            cfg, group = job[0], job[1]; d = percfg.setdefault(cfg, dict(tasks=0, complete=0, paths=0, obligations=0, skipped=0)); got = False
            for l in open(out, errors="replace"):
                try: o = json.loads(l)
                except Exception: continue
                if "t" in o:
                    tot["tasks"] += 1; d["tasks"] += 1; tot["paths"] += o["paths"]; d["paths"] += o["paths"]; tot["obl"] += o["obl"]; d["obligations"] += o["obl"]; tot["triv"] += o["triv"]; tot["steps"] += o["steps"]; tot["ir"] += o["ir"]
                    if o["note"].startswith("unsupported on this target"): tot["unsupported"] += 1
                    if o["ok"]: tot["complete"] += 1; d["complete"] += 1
                    elif len(incomplete) < 4000: incomplete.append((cfg, o["t"], o["note"]))
                elif "viol" in o: viols.append((cfg, group, o))
                elif "sample" in o: samples.append((cfg, o["sample"], o["replay"]))
                elif "sum" in o:
                    got = True
                    for k in ("queries", "sat", "unsat", "unknown", "exact"): tot[k] += o[k]
                    tot["solver_s"] += o["solver_s"]; tot["skipped"] += o["skipped"]; d["skipped"] += o["skipped"]; fns.update(o["fns"])
            if not got: failed.append((cfg, group, job[2], rc))
        rb = {}; kf = known_findings(pid); kf_seen = {}; confirmed = []; unconfirmed = []
        def get_bin(cfg, asan=False):
            k = (cfg, asan)
            if k not in rb:
                out = "%s/replay.%s%s" % (scratch, cfg, ".asan" if asan else ""); r = build_replay("x86_64" if False else cfg, out, asan); rb[k] = out if r.returncode == 0 else None
                if r.returncode: print("replay build failed:", cfg, r.stdout[-500:])
            return rb[k]
        def judge(v):
            cfg, group, o = v; res = "cannot"; det = ""
            b = get_bin(cfg); blocks = [x for x in o["replay"].split("====\n") if x.strip()]
            for blk in blocks:
                if b: 
                    res, det = replay(blk, b, CONFIGS[cfg]["qemu"])
                    if res == "reproduced": return res, det, blk
                if P.get("asan") and not CONFIGS[cfg]["qemu"]:
                    b2 = get_bin(cfg, True)
                    if b2:
                        r2, d2 = replay(blk, b2, "")
                        if r2 == "reproduced" and "AddressSanitizer" in d2: return r2, d2, blk
            return res, det, blocks[0] if blocks else ""
        def handle(v):
            cfg, group, o = v
            for e in kf:
                if fnmatch.fnmatchcase(cfg, e.get("config", "*")) and fnmatch.fnmatchcase(o["viol"], e["task"]) and fnmatch.fnmatchcase(o["desc"], e.get("desc", "*")):
                    kf_seen[e["id"]] = e; return False
            res, det, blk = judge(v)
            if res == "reproduced":
                n = len(confirmed); path = "%s/%s-%d.txt" % (rdir, pid, n); open(path, "w").write("# config %s\n# %s: %s\n# %s\n%s" % (cfg, o["viol"], o["desc"], det.replace("\n", " | ")[:600], blk))
                confirmed.append((cfg, o["viol"], o["desc"], det, path)); return True
            unconfirmed.append((cfg, o["viol"], o["desc"], res, det[-200:])); return False
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"): os.remove(rdir + "/" + f)
        pend = {ex.submit(run_job, j, scratch, tier, seed, (["--maxviol", "100000"] if a.all else []) + (["--task", a.task] if a.task else [])) for j in jobs}; stop = False; seen = set()
        while pend and not stop:
            done, pend = cf.wait(pend, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                n0 = len(viols); collect(*f.result())
                for v in viols[n0:]:
                    key = (v[0], v[2]["viol"], v[2]["desc"])
                    if key in seen or (len(unconfirmed) > 60 and not a.all): continue
                    seen.add(key)
                    if handle(v) and len(confirmed) >= 3 and not a.all: stop = True; break
                if confirmed and not a.all: stop = True
            if time.time() > hardstop: stop = True
        if stop:
            for f in pend: f.cancel()
            subprocess.run(["pkill", "-f", "--", "--bc " + scratch], stderr=subprocess.DEVNULL)
            cf.wait(pend, timeout=15)
        # validate the encoding: replay models of proved paths on the real code
        val_ok = val_bad = val_na = 0; bad_s = []
        if not stop and P.get("validate", True):
            per = {}
            for s in samples: per.setdefault(s[0], []).append(s)
            pick = [s for c in per for s in per[c][:4 if tier == "quick" else 40]]
            list(ex.map(get_bin, sorted({s[0] for s in pick})))
            for s, (res, det) in zip(pick, ex.map(lambda s: replay(s[2].split("====\n")[0], rb[(s[0], False)], CONFIGS[s[0]]["qemu"]) if rb.get((s[0], False)) else ("cannot", ""), pick)):
                if res == "ok": val_ok += 1
                elif res == "cannot": val_na += 1
                else: val_bad += 1; bad_s.append([s[0], s[1], det[-200:]])
        ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 1), violations=len(confirmed),
            assumptions=P["assumptions"],
            coverage=dict(states=tot["paths"], transitions=tot["ir"] + tot["steps"], traces_validated_against_impl=val_ok,
                samples=[dict(config=s[0], task=s[1], replay=s[2][:600]) for s in samples[:3]],
                explanation=P["explain"], bounds=P["bounds"], tasks=tot["tasks"], tasks_complete=tot["complete"], tasks_skipped_for_time=tot["skipped"], tasks_unsupported_on_target=tot["unsupported"],
                obligations=tot["obl"], obligations_trivial_after_simplification=tot["triv"], ir_instructions_executed=tot["ir"], machine_instructions_executed=tot["steps"],
                solver=dict(queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], exact_rechecks=tot["exact"], seconds=round(tot["solver_s"], 1)),
                per_config=percfg, changed_configs=changed, functions_encoded=len(fns), functions=sorted(f for f in fns if not f.startswith("hz_"))[:400],
                incomplete_tasks=len(incomplete), incomplete_samples=["%s %s: %s" % x for x in incomplete[:25]], unconfirmed_counterexamples=[list(x) for x in unconfirmed[:20]],
                engine_failures=[list(x) for x in failed[:20]], validation_not_replayable=val_na, validation_mismatches=bad_s[:10], known_findings=sorted(kf_seen)))
        s = json.dumps(ev, indent=1)
        if len(s) > 60000: ev["coverage"]["functions"] = ev["coverage"]["functions"][:80]; s = json.dumps(ev, indent=1)
        open("%s/%s.json" % (ev_dir, pid), "w").write(s)
        print("%s %s: %d tasks (%d complete, %d skipped), %d paths, %d obligations, %d queries, solver %.0fs, wall %.0fs, changed %s, unconfirmed %d, failures %d, validated %d/%d/%d" % (pid, tier, tot["tasks"], tot["complete"], tot["skipped"], tot["paths"], tot["obl"], tot["queries"], tot["solver_s"], time.time() - t0, changed, len(unconfirmed), len(failed), val_ok, val_na, val_bad))
        for u in unconfirmed[:12]: print("  unconfirmed:", u)
        for u in bad_s[:5]: print("  encoding validation mismatch:", u)
        for u in failed[:12]: print("  engine failure:", u)
        for e in sorted(kf_seen): print("KNOWN-FINDING: property=%s %s" % (pid, kf_seen[e]["what"]))
        for c in confirmed: print("  %s %s: %s [%s]" % (c[0], c[1], c[2], c[3].strip()[:200].replace("\n", " | "))); print("VIOLATION property=%s replay=%s" % (pid, c[4]))
        sys.stdout.flush()
        return 1 if confirmed else 0
    finally:
        subprocess.run(["pkill", "-f", "--", "--bc " + scratch], stderr=subprocess.DEVNULL)
        if not a.keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print("scratch", scratch)
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
