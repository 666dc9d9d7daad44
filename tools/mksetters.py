#!/usr/bin/env python3
"""lib/setters.tbl and lib/words.tbl -> spec/Setters.tla (the tables) and harness/src/setters.in.rs (the calls)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
from setters import *
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
tup = lambda l: "<<" + ", ".join(l) + ">>"
def rec(d, f=lambda x: x, ind="   "): return "[" + (",\n" + ind).join("%s |-> %s" % (k, f(v)) for k, v in d.items()) + "]"
def bare(t): return t.replace("&", "")
out = ["------------------------------ MODULE Setters -------------------------------",
       "(* generated by tools/mksetters.py from lib/setters.tbl and lib/words.tbl: for every typed setter of every",
       "   style, format and drawing object the part and the attributes it sets, and the words of every enumeration",
       "   (names and values as OpenDocument 1.3 defines them) *)",
       "WordsOf ==\n  " + rec(WORDS, lambda d: "[" + ", ".join("%s |-> %s" % (a, q(b)) for a, b in d.items()) + "]"),
       "\\* setter -> <<part, pattern, argument types, attributes>>"]
for k in KINDS:
    out.append("Rows_%s ==\n  " % k + rec({r[1].replace(".", "_"): r for r in ROWS if r[0] == k},
               lambda r: tup([q(r[2]), q(r[3]), tup([q(bare(t)) for t in r[4]]), tup([q(a) for a in r[5]])])))
out.append("RowsOf ==\n  " + rec({k: "Rows_" + k for k in KINDS}))
out.append("\\* getters: <<name, part, attributes>>")
out.append("GettersOf ==\n  " + rec({k: GETTERS.get(k, []) for k in KINDS}, lambda l: tup([tup([q(g[0]), q(g[1]), tup([q(a) for a in g[2]])]) for g in l])))
out.append("\\* builders of format parts: <<element, [option -> <<pattern, argument types, attributes>>]>>")
out.append("PartsOf ==\n  " + rec(PARTS, lambda p: tup([q(p[0]), "[" + ", ".join("%s |-> %s" % (o[0], tup([q(o[2]), tup([q(t) for t in o[1]]), tup([q(a) for a in o[3]])])) for o in p[1]) + "]" if p[1] else "[none |-> <<>>]"])))
out.append("\\* builders of text elements: the element they make")
out.append("TextTags ==\n  " + rec(TEXTTAGS, q))
out.append("=" * 77)
open(os.path.join(ROOT, "spec", "Setters.tla"), "w").write("\n".join(out) + "\n")

# ---------------------------------------------------------------- Rust
enums = sorted(set(WORDS) | set(SUMS))
rs = ["// generated by tools/mksetters.py"]
PAY = {"Length": "c_length(&a[1..])", "Percent": "c_percent(&a[1..])", "Angle": "c_angle(&a[1..])", "u32": "a[1].parse().unwrap()", "str": "a[1].clone()"}
for e in enums:
    arms = ["%s => %s::%s" % (q(v), e, v) for v in WORDS.get(e, {})]
    p = ["(%s, 2..) => %s::%s(%s)" % (q(v), e, v, PAY[t]) for v, t in SUMS.get(e, {}).items()]
    arms = p + ["(%s, _) => %s::%s" % (q(v), e, v) for v in WORDS.get(e, {})]
    rs.append("fn c_%s(a: &[String]) -> %s { match (a[0].as_str(), a.len()) { %s, _ => panic!(\"variant {:?}\", a) } }" % (e.lower(), e, ", ".join(arms)))
def conv(t, i):
    a = "&a[%d]" % i
    if t.startswith("["):
        it = t[1:-1]
        if it == "S": return "&a[%d]" % i
        if it.startswith("&"): return "&a[%d].iter().map(|x| %s::from(x.as_str())).collect::<Vec<_>>().iter().collect::<Vec<_>>()" % (i, it[1:])
        if it.endswith("Ref"): return "&a[%d].iter().map(|x| %s::from(x.as_str())).collect::<Vec<_>>()" % (i, it)
        return "&a[%d].iter().map(|x| c_%s(&[x.clone()])).collect::<Vec<_>>()" % (i, it.lower())
    if t == "str": return "a[%d][0].clone()" % i
    if t == "&str": return "a[%d][0].as_str()" % i
    if t in ("u32", "u8", "bool", "f64", "char", "i32", "i64"): return "a[%d][0].parse().unwrap()" % i
    if t == "CellRef": return "spreadsheet_ods::CellRef::try_from(a[%d][0].as_str()).unwrap()" % i
    if t.startswith("?"): return "if a[%d].is_empty() { None } else { Some(c_%s(&a[%d])) }" % (i, t[1:].lower(), i)
    if t.endswith("Ref"): return ("&" if t[0] == "&" else "") + "%s::from(a[%d][0].as_str())" % (t.lstrip("&"), i)
    return "c_%s(%s)" % (t.lower(), a)
for k, (ty, new, parts) in KINDS.items():
    own = ty.startswith("Text") and parts == ["tag"]
    rs.append("fn set_%s(o: %s, f: &str, a: &[Vec<String>])%s {\n    match f {" % (k, ("mut o: " + ty if 0 else ty) if own else "&mut " + ty, " -> " + ty if own else ""))
    for r in ROWS:
        if r[0] != k: continue
        recv, fn = "o", r[1]
        if "." in fn: recv, fn = {"h": "o.headerstyle_mut()", "f": "o.footerstyle_mut()"}[fn[0]], fn[2:]
        rs.append("        %s => %s.%s(%s)," % (q(r[1].replace(".", "_")), recv, fn, ", ".join(conv(t, i) for i, t in enumerate(r[4]))))
    rs.append("        _ => panic!(\"no setter {f}\"),\n    }\n}")
rs.append("fn setters(k: &str, calls: &[(String, Vec<Vec<String>>)]) -> (Vec<(String, String, String)>, Vec<Vec<String>>) {\n    match k {")
for k, (ty, new, parts) in KINDS.items():
    own = parts == ["tag"]
    body = "let mut o = %s; for (f, a) in calls { %s } let mut m = Vec::new();" % (new, "o = set_%s(o, f, a);" % k if own else "set_%s(&mut o, f, a);" % k)
    if own: body += " let x = o.into_xmltag(); put_!(m, \"tag\", x.attrmap());"
    for p in parts:
        if p == "tag": continue
        acc = {"attr": "attrmap()", "headerstyle": "headerstyle().style()", "footerstyle": "footerstyle().style()"}.get(p, p + "()")
        if p == "usage": body += " if let Some(u) = o.page_usage().unwrap() { m.push((\"usage\".to_string(), \"style:page-usage\".to_string(), u.to_string())); }"
        else: body += " put_!(m, %s, o.%s);" % (q(p), acc)
    body += " let g: Vec<Vec<String>> = vec![%s]; (m, g)" % ", ".join("g_%s(%s)" % (g[3], "o.%s()" % g[0]) for g in GETTERS.get(k, []))
    rs.append("        %s => { %s }" % (q(k), body))
rs.append("        _ => panic!(\"kind {k}\"),\n    }\n}")
# format parts: an option is applied directly, or through if_then with a condition ("+"/"-" before its name)
for k, ps in FPARTS.items():
    ty = KINDS[k][0]
    rs.append("#[allow(deprecated)]\nfn part_%s(o: &mut %s, f: &str, opts: &[(String, Vec<Vec<String>>)]) {\n    match f {" % (k, ty))
    for p in ps:
        el, os_ = PARTS[p]
        start = "o.part_%s()" % p
        if p == "text": start = "o.part_text(\"\")"
        rs.append("        %s => { %s" % (q(p), "let mut b = %s; for (f, a) in opts { b = match f.as_str() {" % start if os_ else "let b = %s; let _ = opts; " % start))
        for n, ts, pat, at in os_:
            call = "b.%s(%s)" % (n, ", ".join(conv(t, i) for i, t in enumerate(ts)))
            rs.append("            %s => %s," % (q(n), call))
            for sg, c in (("+", "true"), ("-", "false")):
                rs.append("            %s => b.if_then(%s, |b| %s)," % (q(sg + n), c, call))
        if os_: rs.append("            _ => panic!(\"harness: option {f}\") } }")
        rs.append("            b.build(); }")
    for p in FPUSH[k]:
        rs.append("        %s => { let a = &opts[0].1; let _ = a; o.%s(%s) }" % (q(p), p, ", ".join(conv(t, i) for i, t in enumerate(PUSH[p]))))
    rs.append("        _ => panic!(\"harness: part {f}\"),\n    }\n}")
rs.append("fn format(k: &str, parts: &[(String, Vec<(String, Vec<Vec<String>>)>)]) -> J {\n    match k {")
for k in FPARTS: rs.append("        %s => { let mut o = %s; for (f, l) in parts { part_%s(&mut o, f, l); } fm(&o) }" % (q(k), KINDS[k][1], k))
rs.append("        _ => panic!(\"harness: kind {k}\"),\n    }\n}")
rs.append("fn ready(f: &str, a: &[Vec<String>]) -> J {\n    match f {")
for f, ts in READY.items(): rs.append("        %s => fm(&spreadsheet_ods::format::%s(\"x\"%s))," % (q(f), f, "".join(", " + conv(t, i) for i, t in enumerate(ts))))
rs.append("        _ => panic!(\"harness: {f}\"),\n    }\n}")
rs.append("fn texttag(t: &str, ops: &[(String, String)]) -> XmlTag {\n    match t {")
for t in TEXTTAGS: rs.append("        %s => build_tag!(%s, ops)," % (q(t), t))
rs.append("        _ => panic!(\"harness: {t}\"),\n    }\n}")
open(os.path.join(ROOT, "harness", "src", "setters.in.rs"), "w").write("\n".join(rs) + "\n")
