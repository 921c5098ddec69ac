"""Decide one property: python3 vp/check.py <ID> [quick|thorough]   (exit 0 held, 1 violation, 2 no answer)"""
import sys, os, json, time, re, fcntl, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vp import core
from vp.props import PROPS
def ensure_engine():
    os.makedirs(core.BUILD, exist_ok=True)
    with open(os.path.join(core.BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc = subprocess.call(["make", "-s", "-C", os.path.join(core.VERIF, "engine")], stdout=subprocess.DEVNULL)
    if rc: print("engine build failed"); sys.exit(2)
def labels_in(harness, kinds=("vp_check", "vp_reach")):
    src = open(f"{core.VERIF}/harness/{harness}").read(); out = set()
    for k in kinds: out |= {(k, l) for l in re.findall(k + r'\((?:[^;]*?,\s*)?"([^"]+)"\)\s*;', src)}
    return out
def load_findings(pid):
    p = f"{core.VERIF}/known_findings.json"
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid] if os.path.exists(p) else []
def matches(f, job, e):
    return re.fullmatch(f.get("job", ".*"), job) and f["kind"] == e["kind"] and (f.get("label") is None or f["label"] == e["label"]) and (f.get("func") is None or f["func"] == e["func"])
def main():
    pid = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")); only = sys.argv[3:] 
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time(); ensure_engine()
    P = PROPS[pid]; jobs = [j for j in P["jobs"](tier) if not only or j.name in only]
    stop = []; first = os.environ.get("VP_FIRST") # for trying many changes: stop at the first violation
    def run(j):
        if stop: return None
        r = core.run_job(j)
        if first and (r["confirmed"] or r["mismatch"] or r["unconfirmed"]): stop.append(1)
        return r
    with ThreadPoolExecutor(int(os.environ.get("VP_PAR", "8"))) as ex: pairs = [(j, r) for j, r in zip(jobs, ex.map(run, jobs)) if r]
    jobs = [j for j, _ in pairs]; res = [r for _, r in pairs]
    findings = load_findings(pid); hit = {}; viol = []; noans = []; partial = []; outd = f"{core.VERIF}/out"; os.makedirs(outd, exist_ok=True)
    for j, r in zip(jobs, res):
        for e in r["confirmed"]:
            f = next((f for f in findings if matches(f, j.name, e)), None)
            if f: hit.setdefault(json.dumps(f, sort_keys=True), f); continue
            viol.append((j, e))
        for e in r["unconfirmed"]:
            if not any(matches(f, j.name, e) for f in findings): noans.append(f"{j.name}: counterexample not reproduced by the real code: {e['kind']} {e['label']} in {e['func']} {e['loc']}: {e['replay'][:600]}")
        for m in r["mismatch"]: noans.append(f"{j.name}: executor and real code disagree: {json.dumps(m)[:1200]}")
        for i in r["incomplete"]:
            if re.match(r"(time budget|state limit|memory)", i): partial.append(f"{j.name}: {i}")
            elif i == "error limit": pass
            else: noans.append(f"{j.name}: {i}")
    reached = set()
    for r in res:
        reached |= {("vp_check", k) for k in r.get("checks", {})} | {("vp_reach", k) for k in r.get("reach", {})}
    if not only:
        skip = set(P.get("optional_labels", ())) | (set(P.get("thorough_labels", ())) if tier == "quick" else set())
        for h in {j.img.harness for j in jobs}:
            for k, l in sorted(labels_in(h)):
                if (k, l) not in reached and l not in skip: noans.append(f"vacuous: {k} \"{l}\" of {h} was never reached")
    for f in hit.values(): print(f"KNOWN-FINDING: property={pid} {f['what']}")
    nv = 0; seen = set()
    for j, e in viol:
        key = (e["kind"], e["label"], e["func"], j.img.id); 
        if key in seen: continue
        seen.add(key); nv += 1; rp = f"{outd}/{pid}.{nv}.json"
        json.dump({"property": pid, "tier": tier, "job": j.name, "params": j.params, **e}, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {j.name}: {e['kind']} {e['label']} in {e['func']} ({e['loc']}); {e['replay'][:300]}")
        print("  inputs: " + ", ".join(f"{i[0]}={i[2]}" for i in e["inputs"][:24]))
    for s in partial[:8]: print("note: not exhausted: " + s)
    for n in list(dict.fromkeys(re.sub(r"^[^:]*: build", "build", x) for x in noans))[:8]: print("no answer: " + re.sub(r"\s+", " ", n)[:700])
    eng = [r["engine"] for r in res if "engine" in r]; fn = {}
    for r in res:
        for k, v in r.get("functions", {}).items(): a = fn.setdefault(k, [0, 0, 0]); a[0] += v[0]; a[1] = max(a[1], v[1]); a[2] = v[2]
    tot = lambda k: sum(e[k] for e in eng)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": nv,
      "coverage": {"states": int(tot("states")), "transitions": int(tot("steps")), "traces_validated_against_impl": sum(r["validated"] for r in res),
        "samples": [{"job": r["job"], **s} for r in res for s in r.get("sample", [])][:6] or [{"note": "none"}],
        "exhaustive": not partial and not noans, "paths": tot("paths"), "paths_cut_by_assumptions": tot("pruned"), "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "z3_calls": tot("z3calls"), "solver_time_s": round(tot("solver_time"), 2),
        "assertions_checked": {l: sum(r.get("checks", {}).get(l, 0) for r in res) for l in sorted({l for r in res for l in r.get("checks", {})})},
        "functions_encoded": {k: {"calls": v[0], "instructions_executed": v[1], "instructions": v[2]} for k, v in sorted(fn.items())},
        "jobs": [{"job": r["job"], "bounds": r["bounds"], "params": r["params"], "paths": r.get("engine", {}).get("paths"), "wall_s": round(r["wall"], 1), "solver_s": round(r.get("engine", {}).get("solver_time", 0), 2), "confirmed_errors": len(r["confirmed"]), "incomplete": r["incomplete"]} for r in res],
        "known_findings_seen": [f["what"] for f in hit.values()], "no_answer": noans},
      "assumptions": P.get("assumptions", []) + ["bounds: " + j.name + ": " + j.bounds for j in jobs if j.bounds]}
    os.makedirs(f"{core.VERIF}/evidence", exist_ok=True); json.dump(ev, open(f"{core.VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {len(jobs)} jobs, {tot('paths')} paths, {tot('queries')} queries, solver {tot('solver_time'):.1f}s, validated {ev['coverage']['traces_validated_against_impl']}, wall {ev['wall_s']}s, violations {nv}, no-answer {len(noans)}")
    if os.environ.get("VP_V"):
        for r in res: print("  ", r["job"], {k: r.get("engine", {}).get(k) for k in ("paths", "pruned", "steps", "wall", "z3calls")}, round(r["wall"], 1), [x[:150] for x in r["incomplete"][:3]])
    sys.exit(1 if nv else 2 if noans else 0)
main()
