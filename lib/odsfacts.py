"""Facts of a file besides its tables, read independently of the library: styles, formats, fonts, pages, validations,
package files, metadata, settings, scripts, carried elements, namespaces.  The specification (Facts.tla) relates them
to the registries of a workbook."""
import re
from odstok import El, at, js, opt, tree, blank, dt_parts, num_hex, boolean
STD = {"/", "content.xml", "styles.xml", "meta.xml", "settings.xml"}
FAM = {"table": ("st:table", ()), "table-row": ("st:row", ("style:row-height", "style:use-optimal-row-height")),
       "table-column": ("st:col", ("style:column-width", "style:use-optimal-column-width")), "table-cell": ("st:cell", ()),
       "paragraph": ("st:paragraph", ()), "text": ("st:text", ()), "ruby": ("st:ruby", ()), "graphic": ("st:graphic", ())}
NF = {"number:boolean-style": "nf:boolean", "number:number-style": "nf:number", "number:percentage-style": "nf:percentage", "number:currency-style": "nf:currency",
      "number:text-style": "nf:text", "number:date-style": "nf:date", "number:time-style": "nf:time"}
OWNP = {"st:row": "style:table-row-properties", "st:col": "style:table-column-properties"}
def fact(k, n, t, u="", o="", x=""): return {"k": k, "n": n, "u": u, "o": o, "t": js(t), "x": x}
def attrs(e, *no): return sorted([k, v] for k, v in e.a if k not in no)
def strip(t):
    """tree without text between elements that only lays them out"""
    return t
def elems(e, why):
    for c in e.c:
        if isinstance(c, El): yield c
        elif not blank(c): why.append("text in " + e.n)

def style(e, u, o, why):
    fam = at(e, "style:family", "")
    if fam not in FAM: return fact("st:?" + fam, at(e, "style:name", ""), tree(e), u, o)
    k, own = FAM[fam]
    props, maps, x = {}, [], []
    for c in elems(e, why):
        if c.n == "style:map": maps.append([at(c, "style:condition", ""), at(c, "style:apply-style-name", ""), opt(at(c, "style:base-cell-address"))])
        else:
            if c.n in props: why.append("%s twice" % c.n)
            ch = []
            for g in elems(c, why):
                if g.n == "style:tab-stops": ch += [tree(y) for y in elems(g, why)]
                else: ch.append(tree(g))
            if OWNP.get(k) == c.n: x = sorted([a, v] for a, v in c.a if a in own)
            a = attrs(c, *own)
            props[c.n] = [c.n, a, ch]
    t = [attrs(e, "style:name", "style:family"), [props[p] for p in sorted(props) if props[p][1] or props[p][2]], maps]
    default = e.n == "style:default-style"
    return fact(k, "(default)" if default else at(e, "style:name", ""), t, "d" if default else u, o, js(x) if own else "")

def part(e, why):
    n = "number:text" if e.n == "loext:text" else "number:fill-character" if e.n == "loext:fill-character" else e.n
    if n in ("number:text", "number:currency-symbol", "number:fill-character"):
        return [n, attrs(e), opt(e.text() or None)]
    return [n, attrs(e), [[c.n, attrs(c), opt(c.text() or None)] for c in elems(e, why)]]
def fmt(e, u, o, why):
    tp, parts, maps = [], [], []
    for c in elems(e, why):
        if c.n == "style:text-properties":
            if c.a: tp.append([c.n, attrs(c), []])
        elif c.n == "style:map": maps.append([c.n, attrs(c), []])
        else: parts.append(part(c, why))
    return fact(NF[e.n], at(e, "style:name", ""), [attrs(e, "style:name"), tp + parts + maps], u, o)

def page(e, why):
    p, h, f = [], [], []
    for c in elems(e, why):
        if c.n == "style:page-layout-properties": p = attrs(c)
        elif c.n in ("style:header-style", "style:footer-style"):
            a = [attrs(x) for x in elems(c, why) if x.n == "style:header-footer-properties"]
            if len(a) > 1: why.append("header-footer-properties twice")
            if c.n == "style:header-style": h = a[0] if a else []
            else: f = a[0] if a else []
        else: why.append("element in page-layout: " + c.n)
    return fact("page", at(e, "style:name", ""), [opt(at(e, "style:page-usage")), p, h, f])
HF = ["style:header", "style:header-first", "style:header-left", "style:footer", "style:footer-first", "style:footer-left"]
HFX = {"loext:header-first": "style:header-first", "loext:footer-first": "style:footer-first"}
def master(e, why):
    hf = {n: [False, [], [], [], []] for n in HF}
    seen = set()
    for c in elems(e, why):
        n = HFX.get(c.n, c.n)
        if n not in hf: why.append("element in master page: " + c.n); continue
        if n in seen: why.append(n + " twice")
        seen.add(n)
        v = [boolean(at(c, "style:display"), True), [], [], [], []]
        for x in elems(c, why):
            i = {"style:region-left": 1, "style:region-center": 2, "style:region-right": 3}.get(x.n)
            if i: v[i] += [tree(y) for y in elems(x, why)]
            else: v[4].append(tree(x))
        if not any(v[1:]) and n[-5:] in ("first", "-left"): v[0] = False
        hf[n] = v
    return fact("master", at(e, "style:name", ""), [at(e, "style:display-name", ""), opt(at(e, "style:page-layout-name")), opt(at(e, "style:next-style-name")), [hf[n] for n in HF]])

def message(e, err, why):
    t = [tree(x) for x in elems(e, why)]
    d = boolean(at(e, "table:display"), True)
    return [d] + ([at(e, "table:message-type", "stop")] if err else []) + [opt(at(e, "table:title")), t]
def valid(e, why):
    c = at(e, "table:condition", "")
    if c.startswith("of:"): c = c[3:]
    er, he = [], []
    for x in elems(e, why):
        if x.n == "table:error-message": er = [message(x, True, why)]
        elif x.n == "table:help-message": he = [message(x, False, why)]
        else: why.append("element in validation: " + x.n)
    b = at(e, "table:base-cell-address")
    return fact("valid", at(e, "table:name", ""), [c, ".A1" if b is None else b, boolean(at(e, "table:allow-empty-cell"), True), at(e, "table:display-list", "unsorted"), er, he])

def dur(s):
    m = re.fullmatch(r"(-?)P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?", s.strip())
    if not m: return ["?" + s]
    sg, d, h, mi, se, fr = m.groups()
    t = int(d or 0) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 + int(se or 0)
    fr = ((fr or "") + "0" * 9)[:9]
    return ["-" if sg and (t or int(fr)) else "+", str(t // 3600), "%02d" % (t // 60 % 60), "%02d" % (t % 60), fr]
TXT = {"dc:title": "title", "dc:description": "description", "dc:subject": "subject", "meta:keyword": "keyword", "meta:initial-creator": "initial_creator",
       "dc:creator": "creator", "meta:printed-by": "printed_by", "dc:language": "language", "meta:generator": "generator"}
DAT = {"meta:creation-date": "creation_date", "dc:date": "date", "meta:print-date": "print_date"}
def optf(x, f): return [] if x is None else [f(x)]
def meta(e, why):
    out, user = [], []
    for c in elems(e, why):
        t = c.text()
        if c.n in TXT:
            if t: out.append(fact("meta", TXT[c.n], t))
        elif c.n in DAT: out.append(fact("meta", DAT[c.n], dt_parts(t)))
        elif c.n == "meta:editing-cycles":
            if int(t or "0"): out.append(fact("meta", "editing_cycles", str(int(t))))
        elif c.n == "meta:editing-duration":
            if dur(t) != dur("PT0S"): out.append(fact("meta", "editing_duration", dur(t)))
        elif c.n == "meta:template":
            v = [optf(at(c, "meta:date"), dt_parts), opt(at(c, "xlink:actuate")), opt(at(c, "xlink:href")), opt(at(c, "xlink:title")), opt(at(c, "xlink:type"))]
            if any(v): out.append(fact("meta", "template", v))
        elif c.n == "meta:auto-reload":
            v = [optf(at(c, "meta:delay"), dur), opt(at(c, "xlink:actuate")), opt(at(c, "xlink:href")), opt(at(c, "xlink:show")), opt(at(c, "xlink:type"))]
            if any(v): out.append(fact("meta", "auto_reload", v))
        elif c.n == "meta:hyperlink-behaviour":
            v = [opt(at(c, "office:target-frame-name")), opt(at(c, "xlink:show"))]
            if any(v): out.append(fact("meta", "hyperlink", v))
        elif c.n == "meta:document-statistic":
            g = lambda k: str(int(at(c, "meta:" + k, "0")))
            v = [g("object-count"), g("ole-object-count")]
            if v != ["0", "0"]: out.append(fact("meta", "objects", v))
            v = [g("table-count"), g("cell-count")]
            if v != ["0", "0"]: out.append(fact("meta", "counts", v))
        elif c.n == "meta:user-defined":
            vt = at(c, "meta:value-type", "string")
            v = {"string": lambda: ["str", t], "float": lambda: ["num", num_hex(t)], "boolean": lambda: ["bool", t], "date": lambda: ["dt", dt_parts(t)], "time": lambda: ["dur", dur(t)]}[vt]()
            user.append([at(c, "meta:name", ""), v])
        else: why.append("element in meta: " + c.n)
    if user: out.append(fact("meta", "user", user))
    return out

def ci(e):
    ty, t = at(e, "config:type", ""), e.text()
    if ty == "double": t = num_hex(t)
    elif ty == "datetime": t = " ".join(dt_parts(t))
    elif ty == "base64Binary": t = "".join(t.split())
    elif ty in ("int", "long", "short"): t = str(int(t))
    return [ty, t]
def items(e, path, out, why):
    i = 0
    for c in elems(e, why):
        if c.n == "config:config-item-map-entry" and e.n == "config:config-item-map-indexed": n = str(i); i += 1
        else: n = at(c, "config:name", "")
        p = path + [n]
        ok = {"office:settings": ("config:config-item-set",), "config:config-item-map-indexed": ("config:config-item-map-entry",), "config:config-item-map-named": ("config:config-item-map-entry",)}.get(
            e.n, ("config:config-item", "config:config-item-set", "config:config-item-map-indexed", "config:config-item-map-named"))
        if c.n not in ok: why.append("%s in %s" % (c.n, e.n))
        if c.n == "config:config-item": out.append([p, ci(c)])
        else:
            out.append([p, [c.n[7:], ""]])
            items(c, p, out, why)

PRE = {"table:calculation-settings", "table:label-ranges", "table:tracked-changes", "text:alphabetical-index-auto-mark-file", "text:dde-connection-decls", "text:sequence-decls", "text:user-field-decls", "text:variable-decls"}
def facts(d, why):
    out, its = [], []
    fods = d["fmt"] == "fods"
    parts = [("flat", d["roots"]["flat"], "")] if fods else [(n, d["roots"][n], o) for n, o in (("content.xml", "c"), ("styles.xml", "s"), ("meta.xml", ""), ("settings.xml", "")) if n in d["roots"]]
    for pn, root, o in parts:
        for sec in root.kids():
            if sec.n == "office:font-face-decls":
                for e in elems(sec, why): out.append(fact("font", at(e, "style:name", ""), attrs(e, "style:name"), "", o))
            elif sec.n in ("office:styles", "office:automatic-styles"):
                u = "n" if sec.n == "office:styles" else "a"
                for e in elems(sec, why):
                    if e.n in ("style:style", "style:default-style"): out.append(style(e, u, o, why))
                    elif e.n in NF: out.append(fmt(e, u, o, why))
                    elif e.n == "style:page-layout": out.append(page(e, why))
                    else: out.append(fact("st:?" + e.n, at(e, "style:name", ""), tree(e), u, o))
            elif sec.n == "office:master-styles":
                for e in elems(sec, why):
                    if e.n == "style:master-page": out.append(master(e, why))
            elif sec.n == "office:meta": out += meta(sec, why)
            elif sec.n == "office:settings": items(sec, [], its, why)
            elif sec.n == "office:scripts":
                sc = []
                for e in elems(sec, why):
                    if e.n == "office:script": sc.append([at(e, "script:language", ""), tree(e)[2]])
                    elif e.n == "office:event-listeners":
                        for l in elems(e, why):
                            out.append(fact("listener", at(l, "script:event-name", ""), [at(l, "script:language", ""), at(l, "script:macro-name", ""), at(l, "xlink:actuate", ""), at(l, "xlink:href", ""), at(l, "xlink:type", "")]))
                if sc: out.append(fact("script", "", sc))
            elif sec.n == "office:body":
                for sp in sec.kids("office:spreadsheet"):
                    seen, pre, post = False, [], []
                    for e in elems(sp, why):
                        if e.n == "table:table": seen = True
                        elif e.n == "table:content-validations":
                            if seen: why.append("validations after tables")
                            for v in elems(e, why): out.append(valid(v, why))
                        else: (post if seen else pre).append(tree(e))
                    if pre: out.append(fact("extra", "pre", pre))
                    if post: out.append(fact("extra", "post", post))
            else: why.append("section " + sec.n)
        for p, uri in d["decl"][pn]:
            if p: out.append(fact("ns", (pn if not fods else "flat") + ":" + p, uri))
    if not fods:
        man = d["roots"].get("META-INF/manifest.xml")
        for e in (man.kids("manifest:file-entry") if man else []):
            p = at(e, "manifest:full-path", "")
            if p in STD: continue
            b = d["z"].read(p) if p in d["names"] else b""
            out.append(fact("file", p, [at(e, "manifest:media-type", ""), opt(at(e, "manifest:version")), b.hex()]))
    return out, its
