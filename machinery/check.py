#!/usr/bin/env python3
# coding=utf-8
"""Decides one property: model checks the specification, generates behaviours from it, replays them on the code in
/repo and has TLC judge the recorded executions.

usage: check.py PROPERTY            (tier and seed from VERIF_TIER and VERIF_SEED)
       check.py --replay FILE       run one recorded scenario again
       check.py --all [PROPERTY..]  every property in turn"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver", "drv.py")
PYTHON = "/opt/venv/bin/python"
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
sys.path.insert(0, HERE)
import examples
import plans


class Broken(Exception):
    """the machinery, not the code under test, failed"""


def tlc(where, module, args, env=None, heap="2g", timeout=800):
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=%d" % (4 if heap != "2g" else 4), "-Xss16m", "-Xmx" + heap,
           "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(where, "md"), "-deadlock", "-config", "x.cfg"] + args + \
          [module + ".tla"]
    full = dict(os.environ)
    full.pop("JAVA_TOOL_OPTIONS", None)
    full.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=where, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s ran out of time" % module)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def prepare(where, module, consts, defs, spec, inv, props):
    os.makedirs(where)
    for name in os.listdir(SPEC):
        if name.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, name), where)
    main = "MC" + module
    with open(os.path.join(where, main + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (main, module))
        for k, v in defs.items():
            f.write("def_%s == %s\n" % (k, v))
        f.write("====\n")
    with open(os.path.join(where, "x.cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts or defs:
            f.write("CONSTANTS\n")
        for k, v in consts.items():
            f.write("  %s = %s\n" % (k, v))
        for k in defs:
            f.write("  %s <- def_%s\n" % (k, k))
        if inv:
            f.write("INVARIANTS %s\n" % " ".join(inv))
        if props:
            f.write("PROPERTIES %s\n" % " ".join(props))
        f.write("CHECK_DEADLOCK FALSE\n")
    return main


def counts(out):
    m = re.findall(r"([\d,]+) states generated", out)
    gen = int(m[-1].replace(",", "")) if m else 0
    m = re.findall(r"([\d,]+) distinct states found", out)
    dis = int(m[-1].replace(",", "")) if m else 0
    m = re.findall(r"number of states generated: ([\d,]+)", out) or re.findall(r"states checked: ([\d,]+)", out)
    if m and not gen:
        gen = int(m[-1].replace(",", ""))
    m = re.findall(r"(\d+) states checked, (\d+) traces generated", out)
    return gen, dis


def generate(where, camp, seed, num):
    """behaviours of the generator module, as scenarios; the design's invariants are checked on the way"""
    main = prepare(where, camp["module"], camp["consts"], camp["defs"], "Spec", camp["inv"], camp["props"])
    if camp["mode"][0] == "sim":
        args = ["-simulate", "num=%d" % num, "-depth", str(camp["mode"][1]), "-seed", str(seed), "-workers", "1"]
    else:
        args = ["-seed", str(seed), "-workers", "1"]
    rc, out = tlc(where, main, args)
    if "Error:" in out or rc != 0:
        raise Broken("generator %s (seed %d):\n%s" % (camp["module"], seed, tail(out)))
    scn, seen = [], set()
    for line in out.splitlines():
        if line.startswith('"SCN '):
            key = line
            if key in seen:
                continue
            seen.add(key)
            j = json.loads(json.loads(line)[4:])
            j = j if isinstance(j, dict) else {"ops": j}
            scn.append(dict({"docs": [], "csvs": []}, **j))
    return scn, counts(out)


def tail(out, n=40):
    lines = [x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic proc", '"SCN'))]
    at = [i for i, x in enumerate(lines) if x.startswith("Error")]
    if at and 'Parsing or semantic' not in out:
        return "\n".join(lines[at[0]:at[0] + n])
    return "\n".join(lines[-n:])


def drive(where, scenarios, timeout=700):
    """the scenarios on the real code; returns (traces, index of a scenario that killed the interpreter or None)"""
    os.makedirs(where)
    src, dst = os.path.join(where, "scn.json"), os.path.join(where, "trace.json")
    with open(src, "w") as f:
        json.dump(scenarios, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONHASHSEED="0",
               MPLCONFIGDIR=where, HOME=where)
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([PYTHON, DRIVER, src, dst, os.path.join(where, "scratch")], env=env, cwd=where,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = -1, "timeout"
    return rc, out, dst


def judge(where, trace, prop):
    """TLC's verdict on the recorded executions"""
    main = prepare(where, "Trace", {}, {}, "TraceSpec", [], [])
    rc, out = tlc(where, main, ["-workers", "1"], env={"TRACE": trace, "PROP": prop})
    viol = [(m[0], m[1], int(m[2]), int(m[3])) for m in re.findall(r'<<"VIOL", "([^"]*)", "([^"]*)", (\d+), (\d+)>>', out)]
    done = [int(x) for x in re.findall(r'<<"DONE", (\d+), \d+>>', out)]
    return rc, out, viol, done


def chunk(job, prop, root):
    """one pipeline: generate, replay, judge"""
    name, camp, seed, num = job
    base = os.path.join(root, "%s-%d" % (name, seed))
    t0 = time.time()
    if "files" in camp:
        scn, cnt = examples.scenarios(REPO, camp["files"]), (0, 0)
    elif "scenarios" in camp:
        scn, cnt = [dict({"docs": [], "csvs": []}, **s) for s in camp["scenarios"]], (0, 0)
    else:
        scn, cnt = generate(base + "g", camp, seed, num)
    if "slice" in camp:
        scn = scn[camp["slice"][0]::camp["slice"][1]]
    for i, s in enumerate(scn):
        s["sid"] = i + 1
    t1 = time.time()
    res = {"name": name, "seed": seed, "gen": cnt, "scenarios": scn, "viol": [], "traces": 0, "events": 0,
           "kinds": {}, "states": 0, "jstates": (0, 0)}
    if scn:
        verdict(base, scn, prop, res)
    res["time"] = (round(t1 - t0, 1), round(time.time() - t1, 1))
    for x in ("g", "d", "t"):
        shutil.rmtree(base + x, ignore_errors=True)
    return res


def verdict(base, scn, prop, res):
    rc, out, trace = drive(base + "d", scn)
    if rc != 0:
        # find the scenario that ends the interpreter
        shutil.rmtree(base + "d", ignore_errors=True)
        if len(scn) == 1:
            if "import" in out.lower() and "drv.py" in out and "Traceback" in out and "bpmn_python" not in out:
                raise Broken("driver:\n" + out[-2000:])
            res["viol"].append(("ANY", "the library can be used at all (%s)" % out.strip().splitlines()[-1][:100]
                                if out.strip() else "the library can be used at all", scn[0]["sid"], 1))
            return
        mid = len(scn) // 2
        verdict(base, scn[:mid], prop, res)
        if not any(v[0] == "ANY" for v in res["viol"]):
            verdict(base, scn[mid:], prop, res)
        return
    runs = json.load(open(trace))
    for r in runs:
        res["traces"] += 1
        res["events"] += len(r["events"]) - 1
        res["states"] += len(r["states"])
        for e in r["events"][1:]:
            key = e["op"] + ("" if e["res"] == "ok" else " (" + e["res"].split(":")[0] + ")")
            res["kinds"][key] = res["kinds"].get(key, 0) + 1
    todo = runs
    for _ in range(6):
        rc, out, viol, done = judge(base + "t", trace, prop)
        shutil.rmtree(base + "t", ignore_errors=True)
        res["viol"] += [v for v in viol if v[0] in (prop, "ANY") or prop == "all"]
        g = counts(out)
        res["jstates"] = (res["jstates"][0] + g[0], res["jstates"][1] + g[1])
        left = [r for r in todo if r["sid"] not in set(done)]
        if not left and "Error:" not in out:
            break
        # an event the specification cannot even evaluate: not a behaviour of the specification
        m = re.findall(r"/\\ sc = (\d+)", out)
        if not m or "Error:" not in out:
            raise Broken("judge:\n" + tail(out))
        bad = todo[int(m[-1]) - 1]
        i = int((re.findall(r"/\\ i = (\d+)", out) or ["1"])[-1])
        res.setdefault("notes", []).append(tail(out, 12))
        res["viol"].append(("ANY", "recorded step can be explained by the specification", bad["sid"], i))
        todo = [r for r in left if r is not bad]
        if not todo:
            break
        with open(trace, "w") as f:
            json.dump(todo, f)
    else:
        res.setdefault("notes", []).append("stopped after several events outside the vocabulary")
    shutil.rmtree(base + "d", ignore_errors=True)


def modelcheck(job, root):
    """exhaustive check of the design"""
    name, camp = job
    where = os.path.join(root, "mc-" + name)
    main = prepare(where, camp["module"], camp["consts"], camp["defs"], camp.get("spec", "Spec"), camp["inv"], camp["props"])
    rc, out = tlc(where, main, ["-workers", "2"], heap="3g", timeout=camp.get("timeout", 600))
    if "Error:" in out or rc != 0 or "No error has been found" not in out:
        raise Broken("model checking %s:\n%s" % (name, tail(out)))
    shutil.rmtree(where, ignore_errors=True)
    return name, counts(out)


def known(prop):
    """witness name -> what fails, of the findings listed as known"""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) witness=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def run(prop, tier, seed):
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return _run(prop, tier, seed, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(prop, tier, seed, root, t0):
    plan = plans.PLANS[prop]
    jobs = []
    for name, camp, sizes in plan["campaigns"]:
        if tier not in sizes:
            continue
        num, chunks = sizes[tier]
        for c in range(chunks):
            cc = camp(c, chunks) if callable(camp) else camp
            jobs.append((name, cc, seed * 1000 + c + 1, num))
    mcs = [(n, c) for n, c, tiers in plan.get("models", []) if tier in tiers]
    results, models = [], []
    kw = known(prop)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        fm = [pool.submit(modelcheck, j, root) for j in mcs]
        fs = [pool.submit(chunk, j, prop, root) for j in jobs]
        fw = {w: pool.submit(chunk, ("witness-" + w, {"scenarios": [plans.WITNESSES[w]]}, 0, 1), prop, root) for w in kw}
        errors = []
        for f in fm:
            try:
                models.append(f.result())
            except Broken as e:
                errors.append(str(e))
        for f in fs:
            try:
                results.append(f.result())
            except Broken as e:
                errors.append(str(e))
        for w, f in fw.items():
            try:
                r = f.result()
                # only the event the finding is about may fail
                expect = plans.WITNESSES[w]["fails"]
                other = [v for v in r["viol"] if v[3] not in expect]
                if len(other) < len(r["viol"]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, kw[w]))
                r["viol"] = other
                results.append(r)
            except Broken as e:
                errors.append(str(e))
    # ------------------------------------------------------------- report
    found = {}
    total = 0
    for r in results:
        for p, clause, sid, i in r["viol"]:
            total += 1
            key = (clause,)
            if key not in found:
                found[key] = (r, sid, i, p)
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + "-"):
            os.remove(os.path.join(replay_dir, name))
    lines = []
    for n, ((clause,), (r, sid, i, p)) in enumerate(sorted(found.items()), 1):
        sc = next(s for s in r["scenarios"] if s["sid"] == sid)
        path = os.path.join(replay_dir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "clause": clause, "event": i, "campaign": r["name"], "seed": r["seed"],
                       "scenario": sc}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("violated: %s: %s (campaign %s, seed %d, scenario %d, operation %d)" %
              (prop, clause, r["name"], r["seed"], sid, i))
    kinds = {}
    for r in results:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    traces = sum(r["traces"] for r in results)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(m[1][1] or m[1][0] for m in models) + sum(r["gen"][0] for r in results),
              "transitions": sum(r["events"] for r in results) + sum(m[1][0] for m in models),
              "traces_validated_against_impl": traces,
              "recorded_states_judged": sum(r["states"] for r in results),
              "operations_on_impl": kinds,
              "models_checked_exhaustively": {m[0]: {"states_generated": m[1][0], "distinct_states": m[1][1]} for m in models},
              "campaigns": {c: {"scenarios": sum(len(r["scenarios"]) for r in results if r["name"] == c),
                                "distinct": len({hashlib.md5(json.dumps([s["ops"], s["docs"], s["csvs"]], sort_keys=True)
                                                             .encode()).hexdigest()
                                                 for r in results if r["name"] == c for s in r["scenarios"]})}
                            for c in sorted({r["name"] for r in results})},
              "samples": [json.dumps(dict(r["scenarios"][0], campaign=r["name"]))[:1500]
                          for r in results[:3] if r["scenarios"]]},
          "assumptions": plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": total}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        for note in r.get("notes", []):
            print("note: " + note)
        if os.environ.get("VERIF_TIMES"):
            print(r["name"], r["seed"], len(r["scenarios"]), r["time"])
    for line in lines:
        print(line)
    print("%s %s seed=%d: %d traces, %d operations judged, %d violations, %.1f s" %
          (prop, tier, seed, traces, sum(r["events"] for r in results), total, time.time() - t0))
    if lines:
        return 1
    if errors:
        for e in errors[:1]:
            print("machinery: " + e[:3000], file=sys.stderr)
        return 2
    if traces == 0:
        print("machinery: nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path):
    data = json.load(open(path))
    root = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        r = chunk(("replay", {"scenarios": [data["scenario"]]}, 0, 1), data["property"], root)
        for p, clause, sid, i in r["viol"]:
            print("violated: %s: %s at operation %d" % (data["property"], clause, i))
        return 1 if r["viol"] else 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--all":
        return max(run(p, tier, seed) for p in (sys.argv[2:] or sorted(plans.PLANS)))
    return run(sys.argv[1], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
