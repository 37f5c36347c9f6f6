"""Runs the static check of one property:  check.py C17 [--thorough]

The units of a property (classes, functions, entry points) are analysed in parallel worker processes; each reports records.
Exit 0: nothing broken; exit 1: VIOLATION line; exit 2: the check cannot give an answer (a public name vanished)."""
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
WORKERS = int(os.environ.get("TAV_WORKERS", "8"))
LIMIT = float(os.environ.get("TAV_LIMIT", "760"))          # seconds for the whole check
UNIT = float(os.environ.get("TAV_UNIT", "240"))            # seconds for one unit


# ------------------------------------------------------------------ worker
def worker(prop, unit):
    import threading as th
    th.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        import props
        import lower
        try:
            box["r"] = props.analyse(prop, unit)
        except lower.Vanished as ex:
            box["gone"] = str(ex)
        except Exception as ex:                      # an engine limit, never an alarm
            import traceback
            traceback.print_exc()
            box["crash"] = "%s: %s" % (type(ex).__name__, ex)
    t = th.Thread(target=go)
    t.start()
    t.join()
    import driver
    files = sorted(getattr(driver, "ANALYSED", ()))
    print("RESULT " + json.dumps({"records": box.get("r", []), "gone": box.get("gone"), "crash": box.get("crash"), "files": files}))


def spawn(prop, unit, short, seconds):
    env = dict(os.environ, TAV_SHORT="1" if short else "0", PYTHONHASHSEED="0")
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", prop, unit], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env)
    try:
        out, err = p.communicate(timeout=max(1, seconds))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"records": [], "crash": "time limit of %d s" % seconds, "files": []}
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return {"records": [], "crash": "analysis process ended with %s %s" % (p.returncode, err[-300:]), "files": []}


def merge(first, second):
    """second pass assumes histories longer than the windows: it may settle what the first left open."""
    by = {(r["rule"], r["construct"]): r for r in second["records"]}
    cons = {}
    for r in second["records"]:
        cons.setdefault(r["construct"], []).append(r)
    out = []
    for r in first["records"]:
        if r["status"] == "undecided":
            s = by.get((r["rule"], r["construct"]))
            if s is None and len(cons.get(r["construct"], ())) == 1:
                s = cons[r["construct"]][0]
            if s is not None and s["status"] != "undecided":
                s = dict(s)
                s["scope"] = "histories long enough that every condition on their length is settled"
                r = s
        out.append(r)
    if not first["records"]:
        for s in second["records"]:
            s = dict(s)
            s["scope"] = "histories long enough that every condition on their length is settled"
            out.append(s)
    return out


def analyse_all(prop, units, modes):
    """{unit: result}"""
    t0 = time.time()
    todo = list(units)
    done = {}
    lock = threading.Lock()

    def run():
        while True:
            with lock:
                if not todo:
                    return
                u = todo.pop(0)
            left = LIMIT - (time.time() - t0)
            if left < 5:
                done[u] = {"records": [], "crash": "not analysed: time limit", "files": []}
                continue
            r = spawn(prop, u, modes[0] == "short", min(UNIT, left))
            open_ = r.get("crash") or any(x["status"] == "undecided" for x in r["records"])
            if open_ and not r.get("gone") and len(modes) > 1:
                left = LIMIT - (time.time() - t0)
                if left > 20:
                    r2 = spawn(prop, u, modes[1] == "short", min(UNIT, left))
                    if r2["records"]:
                        r = {"records": merge(r, r2), "crash": r.get("crash") if not merge(r, r2) else None,
                             "files": r["files"] or r2["files"], "gone": r2.get("gone")}
            done[u] = r
    ts = [threading.Thread(target=run) for _ in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return done


# ------------------------------------------------------------------ runner
def known_findings():
    """(property, rule, construct, detail) that are recorded, and text."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line[9:].split(" | ")[0].split("; "))
                out[(f["property"], f["construct"], f.get("detail", ""))] = line[9:].split(" | ", 1)[1]
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    os.environ["TAV_TIER"] = tier
    import props
    p = props.PROPS[prop]
    t0 = time.time()
    units = p.units(tier)
    res = analyse_all(prop, units, p.modes)
    gone = sorted({r["gone"] for r in res.values() if r.get("gone")})
    if gone:
        print("the public name %s does not exist any more: %s cannot be checked" % (", ".join(gone), prop))
        return 2
    recs, crashes, files = [], [], set()
    for u in units:
        r = res[u]
        files |= set(r["files"])
        for x in r["records"]:
            x["unit"] = u
            recs.append(x)
        if r.get("crash"):
            crashes.append((u, r["crash"]))
    known = known_findings()
    ok = [r for r in recs if r["status"] == "ok"]
    und = [r for r in recs if r["status"] == "undecided"]
    hit, vio = [], []
    for r in recs:
        if r["status"] == "violation":
            k = (prop, r["construct"], r.get("detail", ""))
            (hit if k in known else vio).append((k, r))
    n_ok = sum(r["n"] for r in ok)
    total = n_ok + sum(1 for r in und) + len(vio) + len(hit) + len(crashes)
    rules = {}
    for r in recs:
        d = rules.setdefault(r["rule"], {"ok": 0, "undecided": 0, "violation": 0, "obligations": 0})
        d[r["status"]] += 1
        if r["status"] == "ok":
            d["obligations"] += r["n"]
    print("%s (%s): %s" % (prop, tier, p.title))
    print("analysed: %d unit(s) of %s; %d construct(s)" % (len(units), ", ".join(sorted(files)) or "/repo/ta", len(recs)))
    for k, d in rules.items():
        print("  rule: %s\n        holds on %d construct(s) (%d obligation(s)), undecided %d, broken %d" % (
            k, d["ok"], d["obligations"], d["undecided"], d["violation"]))
    for r in und[:12]:
        print("  undecided: %s at %s: %s" % (r["construct"], r["where"], r["msg"][:200]))
    for u, c in crashes:
        print("  undecided: unit %s: %s" % (u, c[:200]))
    if len(recs) < p.minimum and not crashes:
        print("  only %d constructs found where at least %d exist" % (len(recs), p.minimum))
    for k, r in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    edir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    samples = [{"construct": r["construct"], "where": r["where"], "rule": r["rule"], "shown": r["what"]} for r in
               (ok[:: max(1, len(ok) // 6)] or ok)[:8]]
    scope = sum(1 for r in ok if r.get("scope"))
    cov = {
        "explanation": p.explain,
        "constructs": len(recs), "constructs_proved": len(ok), "obligations": total, "discharged": n_ok,
        "undecided": [{"construct": r["construct"], "where": r["where"], "why": r["msg"][:300]} for r in und] +
                     [{"construct": u, "why": c[:300]} for u, c in crashes],
        "proved_for_long_histories_only": scope,
        "rules": rules, "units": units, "files": sorted(files), "samples": samples,
        "known_findings": [known[k] for k, r in hit],
        "exhaustive": not und and not crashes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
          "assumptions": p.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(vio)}
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if vio:
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as f:
            json.dump([r for k, r in vio], f, indent=1)
        for k, r in vio[:20]:
            print("broken: %s at %s\n   rule: %s\n   %s" % (r["construct"], r["where"], r["rule"], r["msg"]))
            for s in r["steps"][:3]:
                print("   . " + s[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        worker(sys.argv[2], sys.argv[3])
    else:
        sys.exit(main())
