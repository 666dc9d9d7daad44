#!/usr/bin/env python3
"""Mutation campaign in a scratch copy: tools/mutate.py DIR SEED COUNT [file regex] -> DIR/log.jsonl
small changes to the library; reports those that no quick check notices and that pass the stable tests"""
import json, os, random, re, shutil, subprocess, sys, time
D, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILT = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
REPO, VER = D + "/repo", D + "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(D):
    os.makedirs(D)
    sh("git clone -q /repo %s && git clone -q /verif %s && cp -a /verif/harness/target %s/harness/" % (REPO, VER, VER))
    sh("sed -i 's#path = \"/repo\"#path = \"%s\"#' %s/harness/Cargo.toml" % (REPO, VER))
FILES = ["src/io/write.rs", "src/io/read.rs", "src/io/xmlwriter.rs", "src/io/parse.rs", "src/io/format.rs", "src/sheet_.rs", "src/cell_.rs", "src/workbook_.rs", "src/config.rs", "src/validation.rs", "src/condition.rs", "src/refs.rs", "src/refs/format.rs", "src/refs/parser.rs", "src/xmltree.rs", "src/ds/detach.rs", "src/draw.rs", "src/metadata.rs", "src/manifest.rs", "src/attrmap2.rs", "src/style/mod.rs", "src/style/masterpage.rs", "src/style/stylemap.rs", "src/format/mod.rs", "src/format/stylemap.rs", "src/formula.rs",
  "src/value_.rs", "src/text.rs", "src/defaultstyles.rs", "src/format/builder.rs", "src/format/create.rs", "src/macro_format.rs", "src/macro_attr_style.rs", "src/macro_attr_fo.rs", "src/macro_attr_draw.rs", "src/macro_attr_svg.rs", "src/macro_attr_table.rs",
  "src/macro_attr_number.rs", "src/macro_style.rs", "src/macro_text.rs", "src/macro_units.rs", "src/style/units.rs", "src/style/cellstyle.rs", "src/style/pagestyle.rs", "src/style/tabstop.rs", "src/style/fontface.rs", "src/style/graphicstyle.rs", "src/style/paragraphstyle.rs",
  "src/locale/mod.rs", "src/locale/default.rs", "src/locale/en_us.rs", "src/locale/de_at.rs", "src/locale/cs_cz.rs", "src/xlink.rs"]
def muts(path):
    out = []
    try: L = open(os.path.join(REPO, path)).read().split("\n")
    except OSError: return out
    test = False
    for i, l in enumerate(L):
        s = l.strip()
        if "#[cfg(test)]" in l: break
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or "println!" in s or "dump_" in s or "unused_" in s or "fn " in s: continue
        def add(new, k):
            if new != l: out.append((path, i, l, new, k))
        if " == " in l: add(l.replace(" == ", " != ", 1), "eq")
        if " != " in l: add(l.replace(" != ", " == ", 1), "ne")
        for a, b in ((" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > ")):
            if a in l and not re.search(r"[<>]::|impl|->|Vec<|Option<", l): add(l.replace(a, b, 1), "cmp")
        if " && " in l: add(l.replace(" && ", " || ", 1), "and")
        if " || " in l and "|| {" not in l: add(l.replace(" || ", " && ", 1), "or")
        if re.search(r"\bif !", l): add(re.sub(r"\bif !", "if ", l, count=1), "not")
        elif re.search(r"\bif [a-z_.]+\(?\)? \{", l): add(re.sub(r"\bif ([^{]+) \{", r"if !(\1) {", l, count=1), "neg")
        for a, b in ((" + 1", ""), (" - 1", ""), (" + ", " - "), ("+= 1", "+= 2")):
            if a in l and "'" not in l: add(l.replace(a, b, 1), "arith"); break
        if re.search(r"\btrue\b", l): add(re.sub(r"\btrue\b", "false", l, count=1), "bool")
        elif re.search(r"\bfalse\b", l) and "with_checks" not in l: add(re.sub(r"\bfalse\b", "true", l, count=1), "bool")
        m = re.search(r'"([a-z]+):([a-z-]+)"', l)
        if m: add(l.replace(m.group(0), '"%s:%s"' % (m.group(1), m.group(2) + "x"), 1), "name")
        if s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.startswith(("let ", "return", "break", "continue", "}", ")", "pub ", "type ", "mod ")) and re.match(r"[a-z_*.]+[.(\[ ]", s): add(l[:len(l) - len(l.lstrip())] + "", "del")
        m = re.search(r"(?<![\w.\"'])([0-9]{1,4})(?![\w.\"'])", l)
        if m and "const" not in l: add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "int")
        m = re.search(r'b?"([a-z][a-z-]{2,})"(?=[^:])', l)
        if m: add(l.replace(m.group(0), m.group(0)[:-1] + 'x"', 1), "word")
        m = re.search(r"\bSome\(([^()]|\([^()]*\))*\)", l)
        if m and "let Some" not in l and "=>" not in l.split("Some(")[0] + "x" and not re.search(r"Some\([^=]*\) =>", l): add(l[:m.start()] + "None" + l[m.end():], "none")
        if s == "break;": add(l.replace("break;", "continue;"), "brk")
        if ".rev()" in l: add(l.replace(".rev()", ""), "rev")
    return out
ALLM = [m for f in FILES if FILT.search(f) for m in muts(f)]
R = random.Random(SEED)
R.shuffle(ALLM)
ORDER = ["P21", "P20", "P03", "P13", "P16", "P14", "P15", "P17", "P22", "P06", "P02", "P05", "P04", "P11", "P12", "P09", "P07", "P18", "P01", "P19", "P10", "P08", "P23", "P24", "P25"]
FIRST = {"value_": ["P25", "P07"], "macro_attr": ["P23"], "macro_units": ["P23"], "style/": ["P23", "P13"], "macro_format": ["P24", "P23"], "format/builder": ["P24"], "format/create": ["P24"], "locale": ["P24"], "defaultstyles": ["P12", "P24"], "macro_text": ["P23"], "src/text": ["P23"], "xlink": ["P17"], "refs": ["P08"], "formula": ["P08"], "condition": ["P14"], "validation": ["P14"], "config": ["P16"], "metadata": ["P15"], "sheet_": ["P09", "P10", "P04", "P05"], "cell_": ["P09", "P10"], "workbook_": ["P11", "P12"], "detach": ["P11"], "parse.rs": ["P07", "P15"], "io/format": ["P07", "P15"], "draw": ["P22"], "style": ["P13", "P12"], "format": ["P13", "P12"]}
done = set()
LOG = D + "/log.jsonl"
if os.path.exists(LOG): done = {tuple(json.loads(l)["m"][:2] + json.loads(l)["m"][4:]) for l in open(LOG)}
BASE = json.load(open("/opt/vp/BASELINE.json"))
n = 0
for m in ALLM:
    if n >= COUNT: break
    if (m[0], m[1], m[4]) in done: continue
    n += 1
    p = os.path.join(REPO, m[0])
    src = open(p).read()
    L = src.split("\n")
    L[m[1]] = m[3]
    open(p, "w").write("\n".join(L))
    t = time.time()
    try:
        b = sh("cd %s && python3 run.py setup" % VER, timeout=900)
        if b.returncode != 0: res = "nobuild"
        else:
            res = ""
            order = [x for k, v in FIRST.items() if k in m[0] for x in v] + ORDER
            seen = set()
            for q in order:
                if q in seen: continue
                seen.add(q)
                r = sh("cd %s && python3 run.py check %s --tier quick --seed %d" % (VER, q, 1), timeout=900)
                if r.returncode != 0: res = "caught %s %d" % (q, r.returncode); break
            if not res:
                o = sh("cd %s && . /opt/vp/env.sh && rm -rf test_out && mkdir test_out && CARGO_TARGET_DIR=%s/tt timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/test.log 2>&1; python3 /opt/vp/results.py %s/o.json cargo:%s/test.log" % (REPO, D, D, D, D), timeout=900)
                lost = sorted(set(BASE["stable"]) - set(json.load(open(D + "/o.json"))["passed"]))
                res = "tests" if lost else "SURVIVED"
    except subprocess.TimeoutExpired: res = "timeout"
    open(p, "w").write(src)
    with open(LOG, "a") as f: f.write(json.dumps({"m": m, "res": res, "s": round(time.time() - t)}) + "\n")
    print(res, m[0], m[1] + 1, m[4], m[2].strip()[:100], "=>", m[3].strip()[:100], flush=True)
