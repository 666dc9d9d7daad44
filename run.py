#!/usr/bin/env python3
"""run.py check <property> --tier quick|thorough    decide one property
   run.py replay <file>                             re-execute one recorded counterexample
   run.py setup                                     build the driver"""
import argparse, hashlib, json, os, re, shutil, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
os.environ.pop("RUST_BACKTRACE", None)
import runner, known
from runner import ToolError

LEVEL = "model_checking"

def model_run(m, work):
    """TLC enumerates every history of the alphabet and checks the design invariants in every state"""
    p = os.path.join(work, "gen-%s.json" % m.name)
    with open(p, "w") as f: json.dump(m.data(), f)
    rc, out = runner.tlc("", os.path.join(work, "meta-" + m.name), m.module, workers=6, xmx="8g", timeout=3000, envx={"GEN": p})
    shutil.rmtree(os.path.join(work, "meta-" + m.name), ignore_errors=True)
    if "No error has been found" not in out: raise ToolError("design model %s: %s" % (m.name, out[-2500:]))
    hist = sorted([int(x) for x in re.findall(r"\d+", h)] for h in re.findall(r'<<"H", <<([\d, ]*)>>>>', out))
    gen, dist = runner.states_of(out)
    if m.sample and len(hist) > m.sample: hist = hist[::(len(hist) + m.sample - 1) // m.sample]
    return hist, gen, dist

def check(prop, tier, seed):
    import gen, profiles
    t0 = time.time()
    prof = profiles.ALL[prop]
    work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        tb = runner.build()
        quick = tier == "quick"
        cases, states, trans, models = [], 0, 0, []
        for m in (prof.models if quick else prof.deep):
            hist, g, d = model_run(m, work)
            states += d; trans += g
            models.append({"alphabet": m.name, "operations": len(m.ops), "depth": m.depth, "histories": len(hist), "distinct_states": d})
            for tag, c in m.cases(hist): cases.append(dict(c, src="model:%s %s" % (m.name, tag)))
        nm = len(cases)
        for gi, (mk, q, t) in enumerate(prof.gens):
            for i in range(q if quick else t):
                sd = int.from_bytes(hashlib.sha256(("%s/%d/%d/%d" % (prop, seed, gi, i)).encode()).digest()[:8], "big")
                r = mk(gen.G(sd))
                for c in (r if isinstance(r, list) else [r]): cases.append(dict(c, src="seed:%d gen:%d case:%d" % (seed, gi, i)))
        viol, known_hits, st = [], [], {"cases": 0, "events": 0, "states": 0, "generated": 0}
        t1 = time.time()
        step = 4000 if not quick else len(cases) or 1
        done = 0
        for i in range(0, len(cases), step):
            v, s_ = runner.run_cases(cases[i:i + step], work, limit_ms=prof.limit_ms, want_facts=prof.facts)
            for k in st: st[k] += s_[k]
            done += len(cases[i:i + step])
            for x in sorted(v, key=lambda x: x[3].get("res") == "hang"):
                if x[3].get("res") == "hang":      # under load a slow call may look like a hang: ask again, alone and patiently
                    if viol: continue              # (once is enough to know)
                    v2, _ = runner.run_cases([x[0]], work, limit_ms=prof.limit_ms * 3, want_facts=prof.facts, par=1)
                    if not v2: continue
                    x = v2[0]
                viol.append(x)
            if viol or (not quick and time.time() - t0 > 5400): break
        kf, kstats = known.replay(prop, work, prof)
        ops = {}
        for c in cases[:done]:
            for o in c["ops"]: ops[o["op"]] = ops.get(o["op"], 0) + 1
        distinct = len({hashlib.sha1(runner.dumps(c["ops"]).encode()).digest() for c in cases[:done]})
        samples = []
        for i in sorted({0, nm // 2, nm - 1, nm, nm + (len(cases) - nm) // 2, len(cases) - 1}):
            if 0 <= i < len(cases):
                txt = runner.dumps(cases[i]["ops"])
                samples.append({"source": cases[i]["src"], "program": json.loads(txt) if len(txt) < 4000 else txt[:4000]})
        samples = samples[:5]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
              "coverage": {"states": states + st["states"], "transitions": trans + st["generated"], "traces_validated_against_impl": st["cases"], "samples": samples,
                           "distinct_programs": distinct, "design_states": states, "events_validated": st["events"], "operations": ops,
                           "models": models, "exhaustive_histories_replayed": min(nm, done), "seeded_programs": max(0, done - nm), "exhaustive": False,
                           "rule": "programs: every history of the listed alphabets up to the listed depth, plus seeded programs; every event of every program is checked against the specification's transition; a program is counted once per distinct operation list"},
              "assumptions": ["expat/zipfile/float() of Python read XML, packages and decimal numbers correctly", "the driver's projection of the public getters is faithful", "TLC evaluates the specification correctly"],
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
        for l in kf: print(l)
        print("%s %s: %d programs (%d exhaustive), %d events, %d+%d states, build %.0fs, total %.0fs" % (prop, tier, st["cases"], nm, st["events"], states, st["states"], tb, time.time() - t0))
        if not viol: return 0
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, x in enumerate(viol[:3]):
            rp = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(rp, "w") as f: json.dump({"property": prop, "facts": prof.facts, "limit_ms": prof.limit_ms, "source": x[0].get("src"), "failing_op": x[1], "reason": x[2], "ops": x[0]["ops"]}, f, indent=1, ensure_ascii=False)
            print("  %s op %d: %s" % (x[0].get("src"), x[1], x[2][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(path):
    r = json.load(open(path))
    work = os.path.join(HERE, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        runner.build()
        v, st = runner.run_cases([{"ops": r["ops"]}], work, limit_ms=r.get("limit_ms", 20000), want_facts=r.get("facts", False), par=1)
        if not v: print("no violation: %d events conform" % st["events"]); return 0
        print("op %d %s\n%s" % (v[0][1], runner.dumps(r["ops"][v[0][1]] if 0 <= v[0][1] < len(r["ops"]) else {})[:1000], v[0][2]))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    finally: shutil.rmtree(work, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    try:
        if a.cmd == "setup": print("built in %.0fs" % runner.build()); return 0
        if a.cmd == "replay": return replay(a.arg)
        return check(a.arg, a.tier, a.seed)
    except ToolError as e:
        print("TOOL-ERROR %s" % e, file=sys.stderr)
        return 2
sys.exit(main())
