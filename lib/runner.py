"""Builds the driver, executes cases against the library, merges the independent reading of every
file written, and has TLC validate the recorded events against the specification."""
import base64, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "ods-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(HERE, "lib"))
import odstok, odsfacts

class ToolError(Exception): pass

def env():
    e = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode("utf-8", "replace").split("=", 1)
            e[k] = v
    e.pop("RUSTFLAGS", None)
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    e["CARGO_NET_OFFLINE"] = "true"
    return e

def build():
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0: raise ToolError("harness build failed\n" + r.stderr[-3000:])
    return time.time() - t

def dumps(x): return json.dumps(x, ensure_ascii=False, separators=(",", ":"))

def harness(ops, dir_, limit_ms, timeout=600):
    """-> (events, died): died is a description when the process ended abnormally"""
    inp = "\n".join(dumps(o) for o in ops) + "\n"
    pre = lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = subprocess.run([BIN, dir_, str(limit_ms)], input=inp.encode("utf-8", "surrogatepass"), capture_output=True,
                           timeout=timeout, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        return [], "timeout"
    if b"HARNESS-ERROR" in r.stderr: raise ToolError(r.stderr.decode("utf-8", "replace")[-2000:])
    ev = []
    for l in r.stdout.decode("utf-8", "surrogatepass").split("\n"):
        if l.strip():
            try: ev.append(json.loads(l))
            except ValueError: break
    if r.returncode in (0, 3): return ev, None
    return ev, "process ended with %s: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[-300:])

def merge(ev, dir_, want_facts):
    """attach the independent reading of the file to every event that stored one"""
    for e in ev:
        if e["op"] == "save" and e["res"] == "ok":
            p = os.path.join(dir_, e["disk"])
            data = open(p, "rb").read()
            e["doc"] = odstok.tokens(data, odsfacts.facts if want_facts else None)
            os.unlink(p)
        elif e["op"] == "put_file":
            e["doc"] = odstok.tokens(open(e["path"], "rb").read(), odsfacts.facts if want_facts else None)
            del e["path"]

BAD = re.compile(r'<<\s*"BAD-EVENT",\s*(\d+),\s*', re.S)
def tlc(trace, meta, module="OdsTrace", cfg=None, workers=1, xmx="3g", extra=(), timeout=800, envx=None):
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e["TRACE"] = trace
    e.update(envx or {})
    cmd = ["java", "-Xmx" + xmx, "-Xss512m", "-Djava.io.tmpdir=" + meta, "-Dfile.encoding=UTF-8", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try: r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise ToolError("TLC timed out on " + module)
    return r.returncode, r.stdout + r.stderr

def states_of(out):
    m = re.search(r"\b(\d{1,12}) states generated, (\d{1,12}) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

class Result:
    def __init__(s):
        s.cases = s.events = s.states = s.distinct = 0
        s.viol = []      # [(case index, op index, reason)]

def validate(events, dir_, tag):
    """-> (list of (event index, reason), states): first mismatch of the event list only"""
    path = os.path.join(dir_, "trace-%s.ndjson" % tag)
    with open(path, "w", encoding="utf-8") as f:
        for e in events: f.write(dumps(e) + "\n")
    rc, out = tlc(path, os.path.join(dir_, "meta-" + tag))
    shutil.rmtree(os.path.join(dir_, "meta-" + tag), ignore_errors=True)
    st = states_of(out)
    m = BAD.search(out)
    if m:
        i = int(m.group(1)) - 1
        reason = out[m.start():]
        cut = reason.find("Error:")
        return (i, " ".join(reason[:cut if cut > 0 else 3000].split())[:3000]), st
    if '"DONE"' in out and "No error has been found" in out:
        os.unlink(path)
        return None, st
    m = re.search(r"State (\d+):", out)
    if "OutOfMemory" in out or "StackOverflow" in out: raise ToolError("TLC: " + out[-1500:])
    if "Error:" in out and ("TLC threw" in out or "evaluat" in out or "Attempted" in out):
        # the observation lies outside of what the specification can even compare
        k = [int(x) for x in re.findall(r"/\\ i = (\d+)", out)]
        i = (max(k) if k else 1) - 1
        return (i, "observation outside of the specification: " + " ".join(out[out.find("Error:"):].split())[:1500]), st
    raise ToolError("TLC: " + out[-3000:])

def place(o, d, n):
    """operations that exchange files: their place on disk"""
    if o["op"] == "save": return dict(o, disk="f%d" % n), n + 1
    if "b64" in o:
        p = os.path.join(d, "in%d" % n)
        with open(p, "wb") as f: f.write(base64.b64decode(o["b64"]))
        o = dict(o, path=p)
        del o["b64"]
        return o, n + 1
    return o, n

FACTY = {"new", "save", "load", "q_book", "same"}
def run_chunk(args):
    cases, dir_, tag, limit_ms, want_facts = args
    d = os.path.join(dir_, "c" + tag)
    os.makedirs(d, exist_ok=True)
    ops, owner = [], []
    n = 0
    for ci, c in enumerate(cases):
        for oi, o in enumerate([{"op": "reset"}] + c["ops"]):
            o, n = place(o, d, n)
            if want_facts and o["op"] in FACTY: o = dict(o, facts=True)
            ops.append(o); owner.append((ci, oi - 1))
    viol = []
    ev, died = harness(ops, d, limit_ms)
    if died:
        # find the case that kills the process; the others are validated without it
        ev = []; owner = []
        for ci, c in enumerate(cases):
            sub, m = [{"op": "reset"}], 0
            for o in c["ops"]:
                o, n = place(o, d, n)
                if want_facts and o["op"] in FACTY: o = dict(o, facts=True)
                sub.append(o)
            e1, d1 = harness(sub, d, limit_ms, timeout=max(120, limit_ms // 500))
            if d1: viol.append((ci, len(e1) - 1, "the process died: " + d1, {})); continue
            ev += e1; owner += [(ci, k - 1) for k in range(len(e1))]
    merge(ev, d, want_facts)
    nev = len(ev)
    gen = dist = 0
    # after a mismatch, continue behind the failing case (a few times) so one failure does not hide the rest
    start, tries = 0, 0
    while ev[start:]:
        bad, st = validate(ev[start:], d, "%d" % tries)
        gen += st[0]; dist += st[1]
        if bad is None: break
        i = start + bad[0]
        ci, oi = owner[min(i, len(owner) - 1)]
        viol.append((ci, oi, bad[1], ev[min(i, nev - 1)]))
        tries += 1
        while start < len(ev) and owner[start][0] <= ci: start += 1
        if tries >= 3: break
    shutil.rmtree(d, ignore_errors=True)
    return viol, nev, gen, dist

def run_cases(cases, work, limit_ms=20000, want_facts=False, par=8, per=None):
    """validates all cases; -> (violations [(case, opidx, reason, event)], stats)"""
    os.makedirs(work, exist_ok=True)
    size = lambda c: sum(len(dumps(o)) for o in c["ops"]) + 200
    k = par if per is None else max(par, (len(cases) + per - 1) // per)
    k = min(k, len(cases)) or 1
    chunks = [[] for _ in range(k)]
    load = [0] * k
    for c in cases:
        j = load.index(min(load))
        chunks[j].append(c); load[j] += size(c)
    out, ev, gen, dist = [], 0, 0, 0
    with cf.ThreadPoolExecutor(par) as ex:
        for ch, r in zip(chunks, ex.map(run_chunk, [(ch, work, "%03d" % i, limit_ms, want_facts) for i, ch in enumerate(chunks)])):
            v, n, g, d = r
            ev += n; gen += g; dist += d
            for x in v: out.append((ch[x[0]],) + tuple(x[1:]))
    return out, {"cases": len(cases), "events": ev, "states": dist, "generated": gen}
