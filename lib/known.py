"""Known findings: genuine defects that are recorded instead of repaired (known-findings.json).  Each is
identified by a program; the check replays it and reports it as known as long as exactly that program fails."""
import json, os, runner
PATH = os.path.join(runner.HERE, "known-findings.json")
def entries(): return json.load(open(PATH))["findings"] if os.path.exists(PATH) else []
def replay(prop, work, prof):
    out, st = [], {}
    for f in entries():
        if f.get("property") != prop or f.get("status") != "known": continue
        v, st = runner.run_cases([{"ops": f["ops"]}], work, limit_ms=prof.limit_ms, want_facts=f.get("facts", prof.facts), par=1)
        if v: out.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    return out, st
