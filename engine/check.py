"""check.py PROPERTY [quick|thorough] - decide one property on /repo's current source."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

REPO = os.environ.get("RL_REPO", "/repo")
JOBS = int(os.environ.get("RL_JOBS", "8"))
P = None
TIER = "quick"
T0 = time.time()


def extract():
    out = tempfile.mkdtemp(prefix="rl-", dir=os.path.join(VERIF, "build"))
    try:
        with open(os.path.join(VERIF, "build", "lock"), "w") as lk:
            import fcntl
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run([os.path.join(VERIF, "bin", "extract.sh"), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout)
            print("the source could not be type-checked; nothing was analysed")
            sys.exit(2)
        import prog
        return prog.Prog(os.path.join(out, "rust_light-lib.json"))
    finally:
        shutil.rmtree(out, ignore_errors=True)


def work(job):
    """one shard of one obligation family -> plain data"""
    fam, disabled, shard, n, t0 = job
    import obl
    env = obl.Env(P, budget=registry.BUDGET * (3 if TIER == "thorough" else 1))
    env.disabled = set(disabled)
    env.deadline = t0 + (registry.LIMIT if TIER != "thorough" else 6000)
    env.shard = (shard, n) if n > 1 else None
    note = None
    try:
        registry.family(fam)(env)
        env.by_cases(registry.family(fam), min(time.time() + registry.CASES * (5 if TIER == "thorough" else 1), env.deadline - registry.LIMIT // 3))
    except Exception as e:      # a lookup that this source does not answer: recorded, never a verdict
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        note = "%s: %s (%s:%d)" % (fam, type(e).__name__ + " " + str(e)[:80], tb.filename.rsplit("/", 1)[-1], tb.lineno)
    rows = [(v.name, v.status, v.where, v.detail[:1200], v.notes.get("secs", 0)) for v in env.verdicts]
    return fam, rows, env.visited, sorted(env.used), env.callsites, env.loops, env.valuations, note


def run(pool, fams, disabled=()):
    jobs = []
    for f in fams:
        n = registry.SHARDS.get(f, 1)
        jobs += [(f, tuple(disabled), i, n, T0) for i in range(n)]
    res = pool.map(work, jobs, chunksize=1)
    return res


def known(prop):
    """finding: lines of the committed list that name this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                what = l.split(" ", 2)[2]
                out[what.split(" :: ")[0]] = what
    return out


def main():
    global P, TIER
    prop = sys.argv[1]
    TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    P = extract()
    import evalt
    evalt.BASE = (seed - 1) * 100003
    evalt.EFFORT = 10 if TIER == "thorough" else 1
    spec = registry.PROPS[prop]
    notes = []
    with mp.Pool(JOBS) as pool:
        # the contracts of the primitives, first: only what holds on this source is relied on
        cres = run(pool, sorted(registry.CONTRACTS) if spec.get("contracts", True) else [])
        crows = {}
        for fam, rows, *_ in cres:
            crows.setdefault(fam, []).extend(rows)
        disabled, cviol = set(), {}
        for fam, hooks in registry.CONTRACTS.items():
            for row in crows.get(fam, []):
                h = registry.hook_of(fam, row[0])
                if h and row[1] not in ("PROVED", "AGREE"):
                    disabled.add(h)
                    if row[1] == "VIOLATED":
                        cviol.setdefault(h, []).append(row)
        for fam, rows, v, u, c, l, n, note in cres:
            if note:
                disabled |= set(registry.CONTRACTS[fam])
        res = run(pool, spec["families"], disabled)
        used_before = set()
        if cviol and all(r[1] != "VIOLATED" for x in res for r in x[1]) and any(r[1] == "UNKNOWN" for x in res for r in x[1]):
            # the primitive misbehaves, and without its contract its callers are not decided
            res2 = run(pool, spec["families"], ())
            for x in res2:
                used_before |= set(x[3])
    rows, visited, used = [], {}, set()
    callsites = loops = valuations = 0
    for fam, rr, v, u, c, l, n, note in res:
        rows += rr
        for k, m in v.items():
            visited[k] = visited.get(k, 0) + m
        used |= set(u)
        callsites += c
        loops += l
        valuations += n
        if note:
            notes.append(note)
    keep = spec.get("keep")
    if keep:
        rows = [r for r in rows if keep(r[0])]
    relied = []
    for fam in registry.CONTRACTS:
        for row in crows.get(fam, []):
            h = registry.hook_of(fam, row[0])
            if h in used and h not in disabled and fam not in spec["families"]:
                relied.append(row)
    for h, rr in cviol.items():
        if h in used_before:
            rows += rr
    viol = [r for r in rows if r[1] == "VIOLATED"]
    kn = known(prop)
    left = []
    for r in viol:
        if r[0] in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[r[0]]))
        else:
            left.append(r)
    wall = time.time() - t0
    count = {s: sum(1 for r in rows if r[1] == s) for s in ("PROVED", "AGREE", "VIOLATED", "UNKNOWN")}
    write_evidence(prop, spec, TIER, seed, rows, relied, visited, sorted(used), disabled, count, callsites, loops, valuations, notes, wall, len(viol))
    print("%s %s: %d obligations on %d functions: %s; %d contract obligations relied on; %.1f s" % (
        prop, TIER, len(rows), len(visited), ", ".join("%d %s" % (count[s], s) for s in count if count[s]), len(relied), wall))
    for s in (notes + ["%s: %s" % (r[0], r[3][:160]) for r in rows if r[1] == "UNKNOWN"])[:12]:
        print("  undecided:", s)
    if left:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        json.dump({"property": prop, "title": spec["title"], "violations": [
            {"obligation": r[0], "construct": r[2], "what": r[3]} for r in left],
            "replay": "bin/check %s %s" % (prop, TIER)}, open(path, "w"), indent=1)
        for r in left[:6]:
            print("  %s\n    at %s\n    %s" % (r[0], r[2], r[3][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


def write_evidence(prop, spec, tier, seed, rows, relied, visited, used, disabled, count, callsites, loops, valuations, notes, wall, nviol):
    cov = {
        "explanation": spec["explain"],
        "obligations": len(rows),
        "discharged": count["PROVED"] + count["AGREE"],
        "proved_by_identical_closed_forms": count["PROVED"],
        "agreeing_closed_forms": count["AGREE"],
        "undecided": count["UNKNOWN"],
        "valuations_of_closed_forms": valuations,
        "functions_analysed": len(visited),
        "call_sites_followed": callsites,
        "loops_summarised": loops,
        "contracts_relied_on": ["%s: %s" % (r[0], r[1]) for r in relied],
        "contracts_withdrawn": sorted(disabled),
        "rule": registry.STRULE if spec.get("rule") else registry.RULE,
        "functions": sorted("%s x%d" % (k.split("::", 1)[-1], v) for k, v in visited.items())[:150],
        "samples": [{"obligation": r[0], "status": r[1], "where": r[2][-110:], "detail": r[3][:200]} for r in pick(rows)],
        "undecided_obligations": [{"obligation": r[0], "why": r[3][:160]} for r in rows if r[1] == "UNKNOWN"][:40],
        "notes": notes[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": registry.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def pick(rows):
    seen, out = set(), []
    for r in sorted(rows, key=lambda r: {"VIOLATED": 0, "UNKNOWN": 1, "AGREE": 2, "PROVED": 3}[r[1]]):
        k = (r[1], r[0].split(" ")[0])
        if k not in seen or len(out) < 20:
            seen.add(k)
            out.append(r)
    return out[:60]


if __name__ == "__main__":
    main()
