"""Programs about whole files: values, routes, faults, damaged input, cycles, rich content."""
import json, re, zipfile, io
from gen import *
import odsmk, odstok
from profiles import *
import profiles as P0

# ------------------------------------------------------------------ values (P07)
DURS = [["+", "0", "00", "00", "000000000"], ["-", "0", "00", "00", "000000001"], ["+", "0", "00", "00", "999999999"], ["-", "0", "00", "01", "000000000"], ["-", "0", "59", "59", "500000000"],
        ["+", "23", "59", "59", "999999999"], ["+", "24", "00", "00", "000000000"], ["-", "24", "00", "00", "000000001"], ["+", "99", "00", "00", "000000000"], ["+", "100", "00", "00", "000000000"],
        ["+", "65535", "00", "00", "000000000"], ["+", "65536", "59", "00", "000000000"], ["+", "2562047", "00", "00", "000000000"], ["-", "2562048", "00", "00", "000000001"], ["+", "596523", "14", "08", "000000000"], ["-", "123456789", "07", "06", "050000000"]]
DTS = [["1", "01", "01", "00", "00", "00", "000000000"], ["9999", "12", "31", "23", "59", "59", "999999999"], ["2000", "02", "29", "12", "00", "00", "000000001"], ["1900", "02", "28", "23", "59", "59", "100000000"],
       ["1899", "12", "30", "00", "00", "00", "000000000"], ["1899", "12", "31", "00", "00", "01", "000000000"], ["1969", "12", "31", "23", "59", "59", "999999999"], ["2024", "10", "09", "08", "07", "06", "050403020"], ["999", "01", "01", "10", "00", "00", "010000000"], ["2038", "01", "19", "03", "14", "08", "000000000"]]
FLT = [0.1, 0.2, 0.3, 1e22, 1e23, 123456789012345680.0, 4.35, 0.000001, 1e-5, 1.0000000000000002, 0.9999999999999999, 4503599627370496.5, 9007199254740992.0, 18014398509481984.0, 1.5e-323, 2.2250738585072011e-308, 1e308, 12345678.9, 2**63 * 1.0, -2**63 * 1.0, 65536.0, 1e-320]
def values_seq(g, n):
    out = []
    for _ in range(n):
        k = g.pick(["num", "num", "num", "pct", "cur", "bool", "dt", "dt", "dur", "dur", "text"])
        v = g.value_k(k)
        if k in ("num", "pct", "cur") and g.p(0.4): v["v"][0] = hexf(g.pick(FLT) * g.pick([1, -1]))
        if k == "dt" and g.p(0.4): v["v"] = g.pick(DTS)
        if k == "dur" and g.p(0.5): v["v"] = g.pick(DURS)
        out.append(v)
    return out
def value_case(g):
    ops = list(PRE1)
    n = 0
    for v in values_seq(g, 24):
        r, c = divmod(n, 6); n += 1
        ops.append({"op": "set_value", "b": 0, "s": 0, "r": r, "c": c, "v": v})
        if g.p(0.1): ops.append({"op": "set_formula", "b": 0, "s": 0, "r": r, "c": c, "f": "of:=1"})
    ops.append(q_book(0))
    sv = save(g, 0, "f")
    ops += [sv, load(g, sv, 1)]
    sv2 = save(g, 1, "f2")
    return {"ops": ops + [sv2, load(g, sv2, 2)]}
def value_file(g):
    d = odsmk.Doc()
    d.auto = odsmk.base_styles()
    d.styles = '<style:style style:name="Default" style:family="table-cell"/>'
    rows = ""
    for r in range(4):
        row = ""
        for v in values_seq(g, 6):
            a, c = odsmk.val_attrs(g, v)
            if g.p(0.2): a = a + [["table:formula", "of:=1"]]
            if g.p(0.2): a = a + [["calcext:value-type", dict(map(tuple, a))["office:value-type"]]]
            g.r.shuffle(a)
            row += odsmk.xml(["table:table-cell", a, c], lambda: g.p(0.3))
        rows += "<table:table-row>" + row + "</table:table-row>"
    d.tables = '<table:table table:name="T"><table:table-column table:number-columns-repeated="6"/>' + rows + "</table:table>"
    fmt = g.pick(["ods", "fods"])
    ops = [{"op": "put_file", "file": "f", "fmt": fmt, "b64": B64(d.pack(fmt))}, {"op": "load", "b": 0, "fmt": fmt, "via": g.pick(LOADS[fmt]), "file": "f", "prow": [], "pcol": [], "facts": False}]
    sv = save(g, 0, "f2")
    return {"ops": ops + [sv, load(g, sv, 1)]}
ALL["P07"] = Profile([], [], [(value_case, 320, 6000), (value_file, 320, 6000)])

# ------------------------------------------------------------------ routes (P18)
def routes_case(g):
    """one document through every output and input route"""
    base = grid(g.pick(["clear span attr hdr grp lvl", "clear rep rich", "clear rich attr"]), 14, cycles=(0,))(g)
    pr, pc = list(range(0, 9)), list(range(0, 8))
    ops = base["ops"]
    from profiles_reg import Mk, LOOKS
    m = Mk(g, g.p(0.3))
    for _ in range(g.r.randint(0, 6)): ops.append(dict(m.fact(g.pick(LOOKS + ["valid", "file", "listener"])), op="reg_put", b=0))
    for _ in range(g.r.randint(0, 4)): ops.append(dict(m.meta(), op="set_field", b=0))
    for k, (fmt, via) in enumerate(SAVES):
        f = "f%d" % k
        ops.append({"op": "save", "b": 0, "fmt": fmt, "via": via, "file": f})
        lv = g.pick(LOADS[fmt])
        ops.append({"op": "load", "b": 1 + k, "fmt": fmt, "via": lv, "file": f, "prow": pr, "pcol": pc, "facts": False})
        ops.append({"op": "load", "b": 50 + k, "fmt": fmt, "via": "opt", "opts": g.pick([[], ["content"], ["styles"], ["content", "styles"]]), "file": f, "prow": pr, "pcol": pc, "facts": False})
        if k: ops.append({"op": "same", "b": 1, "b2": 1 + k})
    for lv in LOADS["ods"]: ops.append({"op": "load", "b": 90, "fmt": "ods", "via": lv, "file": "f0", "prow": pr, "pcol": pc, "facts": False})
    for lv in LOADS["fods"]: ops.append({"op": "load", "b": 90, "fmt": "fods", "via": lv, "file": "f%d" % (len(SAVES) - 1), "prow": pr, "pcol": pc, "facts": False})
    ops.append(q_book(0, pr, pc))
    return {"ops": ops}
ALL["P18"] = Profile([], [], [(routes_case, 40, 1500)], facts=True)

# ------------------------------------------------------------------ faults (P19)
def small_doc(g, n=10):
    return grid(g.pick(["clear span attr hdr grp", "clear rich", "clear attr lvl"]), n, cycles=(0,))(g)["ops"][:-1]
def fault_case(g):
    ops = small_doc(g)
    for fmt, modes in (("ods", ["bytes", "call", "dead", "flush", "short", "zero"]), ("fods", ["bytes", "call", "dead", "flush", "short", "zero"])):
        for m in modes:
            o = {"op": "save_sweep", "b": 0, "fmt": fmt, "mode": m, "n": 60 if m in ("bytes", "call", "dead") else 25, "off": g.r.randint(0, 10000)}
            if fmt == "ods": o["comp"] = g.pick(["", "stored", "def"])
            ops.append(o)
        for m in ("bytes", "dead"): ops.append({"op": "save_sweep", "b": 0, "fmt": fmt, "mode": m, "n": 25, "off": g.r.randint(0, 10000), "wrap": True})
    for fmt in ("ods", "fods"):
        ops.append({"op": "save", "b": 0, "fmt": fmt, "via": "buf", "file": "s" + fmt})
        for m in ("bytes", "call", "trunc"): ops.append({"op": "load_sweep", "file": "s" + fmt, "fmt": fmt, "mode": m, "n": 60, "off": g.r.randint(0, 10000)})
        ops.append({"op": "load_sweep", "file": "s" + fmt, "fmt": fmt, "mode": "short", "n": 1})
        ops.append({"op": "save_limit", "b": 0, "fmt": fmt, "mode": "bytes", "n": 20, "off": g.r.randint(0, 10000)})
        for t in ("full", "dir", "missing"): ops.append({"op": "save_path", "b": 0, "fmt": fmt, "to": t})
        for t in ("dir", "missing"): ops.append({"op": "load_path", "fmt": fmt, "from": t})
    return {"ops": ops}
def repack(data, edit, method=zipfile.ZIP_DEFLATED):
    """copies a package; edit(name, bytes) gives the new bytes or None"""
    src, out = zipfile.ZipFile(io.BytesIO(data)), io.BytesIO()
    with zipfile.ZipFile(out, "w", method) as z:
        for i in src.infolist():
            b = edit(i.filename, src.read(i.filename))
            if b is not None: z.writestr(i.filename, b)
    return out.getvalue()
FULL_META = '<meta:generator>x</meta:generator><dc:title>t</dc:title><meta:keyword>k</meta:keyword><meta:document-statistic meta:table-count="1"/><meta:user-defined meta:name="u">v</meta:user-defined>'
FULL_SET = '<config:config-item-set config:name="ooo:view-settings"><config:config-item config:name="VisibleAreaTop" config:type="int">0</config:config-item><config:config-item-map-indexed config:name="Views"><config:config-item-map-entry><config:config-item config:name="ViewId" config:type="string">view1</config:config-item></config:config-item-map-entry></config:config-item-map-indexed></config:config-item-set>'
def full_doc(g, F="ws grp hdr rich span"):
    d = odsmk.Doc()
    d.auto = odsmk.base_styles() + '<style:style style:name="fta1" style:family="table"/>'
    d.styles = '<style:style style:name="Default" style:family="table-cell"><style:text-properties fo:color="#000000"/></style:style><number:date-style style:name="N1" number:language="en"><number:day/><number:text>.</number:text><number:month number:style="long"/></number:date-style><style:style style:name="P" style:family="paragraph"><style:paragraph-properties><style:tab-stops><style:tab-stop style:position="1cm"/></style:tab-stops></style:paragraph-properties></style:style>'
    d.sauto = '<style:page-layout style:name="pl"><style:page-layout-properties fo:margin="1cm"/><style:header-style><style:header-footer-properties fo:min-height="1cm"/></style:header-style><style:footer-style/></style:page-layout>'
    d.master = '<style:master-page style:name="Default" style:page-layout-name="pl"><style:header><style:region-left><text:p>l</text:p></style:region-left></style:header><style:footer><text:p>f <text:page-number>1</text:page-number></text:p></style:footer></style:master-page>'
    d.fonts = '<style:font-face style:name="F" svg:font-family="F"/>'
    d.sfonts = '<style:font-face style:name="G" svg:font-family="G"/>'
    d.meta, d.settings = FULL_META, FULL_SET
    d.scripts = '<office:scripts><office:script script:language="b">x</office:script></office:scripts>'
    d.pre = '<table:content-validations><table:content-validation table:name="val1" table:condition="of:cell-content-is-whole-number() and cell-content()&gt;1" table:base-cell-address="T1.A1"><table:help-message table:title="h" table:display="true"><text:p>help</text:p></table:help-message><table:error-message table:message-type="stop"><text:p>err</text:p></table:error-message></table:content-validation></table:content-validations>'
    d.post = '<table:named-expressions><table:named-range table:name="n" table:base-cell-address="$T1.$A$1" table:cell-range-address="$T1.$A$1"/></table:named-expressions><table:database-ranges/>'
    d.files = [("Pictures/a.png", "image/png", b"\x89PNG\r\n\x1a\n" + bytes(range(64)))]
    t = odsmk.TableGen(g, set(F.split()))
    d.tables = "".join(t.table("T%d" % (i + 1)) for i in range(g.pick([1, 2])))
    return d
PARTS = ["content.xml", "styles.xml", "meta.xml", "settings.xml", "META-INF/manifest.xml"]
def cut_parts(g):
    """intact packages whose parts end early, inside or between elements: must be refused"""
    d = full_doc(g)
    data = d.pack("ods")
    ops = []
    for part in PARTS:
        for _ in range(6):
            def edit(n, b):
                if n != part: return b
                end = b.rstrip().rfind(b"</")
                start = b.find(b"<", b.find(b"?>") + 2)
                start = b.find(b">", start) + 1 if g.p(0.9) else start
                k = g.r.randint(start, end - 1)
                if g.p(0.5): k = g.pick([m.end() for m in re.finditer(rb">", b) if start <= m.end() <= end] or [k])
                return b[:k]
            ops.append({"op": "try_load", "b64": B64(repack(data, edit)), "fmt": "ods", "via": "buf", "must": "err"})
    ops.append({"op": "try_load", "b64": B64(repack(data, lambda n, b: b)), "fmt": "ods", "via": "buf", "must": "doc"})
    # damaged compressed data: the checksum of the part does not match
    zi = zipfile.ZipFile(io.BytesIO(d.pack("ods", zipfile.ZIP_STORED)))
    raw = d.pack("ods", zipfile.ZIP_STORED)
    for part in PARTS:
        i = zi.getinfo(part)
        off = i.header_offset + 30 + len(part.encode())
        k = raw.find(b"office:version", off) if part != "META-INF/manifest.xml" else raw.find(b"text/xml", off)
        b = bytearray(raw)
        b[k + (8 if part[0] != "M" else 5)] ^= 1
        ops.append({"op": "try_load", "b64": B64(bytes(b)), "fmt": "ods", "via": "buf", "must": "err"})
    return {"ops": ops}
ALL["P19"] = Profile([], [], [(fault_case, 40, 400), (cut_parts, 40, 500)], limit_ms=120000)

# ------------------------------------------------------------------ damaged input (P20)
NASTY = ["", "0", "-1", "1", "2", "abc", "4294967296", "99999999999999999999", "1e3", "1.5", " 5 ", "+3", "0x10", "NaN", "inf", "-0", "true", "TRUE", "yes", "'", "''", "'#", "$", "$A", "A", "A0", ".A1", ".A1:.B2", "T1.A1:T1.B2", "[.A1]", "#REF!",
         "ZZZZZZZZ99999999999", "1cm", "cm", "-1cm", "1 cm", "%", "50%", "#fff", "#gggggg", "2020-13-45", "2020-02-30T25:61:61", "2020-01-01T", "PT", "P", "PTS", "-PT1H", "PT-1H", "P1Y2M", "PT99999999999999999999H", "PT1.5.5S", "T", "&amp;", "\u00e4", "\U0001F600", "x" * 300, "a b", "visible", "collapse", "float", "string", "date", "time", "boolean", "currency", "percentage", "default", "of:=", "of:=[.A1]", "=", "\t", "\n"]
REPN = ["", "0", "-1", "1", "2", "3", "7", "50", "abc", "4294967296", "99999999999999999999", "1.5", " 5 ", "+3"]
ELS = ["table:table", "table:table-row", "table:table-cell", "table:covered-table-cell", "table:table-column", "table:table-row-group", "table:table-column-group", "table:table-header-rows", "table:table-header-columns", "table:table-rows", "table:table-columns", "table:shapes", "office:forms", "office:annotation", "draw:frame", "draw:image", "text:p", "text:span", "text:h", "text:list", "text:s", "text:tab",
       "office:body", "office:spreadsheet", "office:document-content", "office:styles", "office:automatic-styles", "office:master-styles", "office:font-face-decls", "office:scripts", "office:meta", "office:settings", "style:style", "style:default-style", "style:map", "style:table-cell-properties", "style:text-properties", "style:page-layout", "style:master-page", "style:header", "style:footer", "style:region-left", "style:font-face", "style:tab-stops", "style:tab-stop",
       "number:number-style", "number:number", "number:text", "number:date-style", "number:day", "number:embedded-text", "number:time-style", "number:currency-style", "number:currency-symbol", "number:boolean-style", "number:text-style", "number:percentage-style", "table:content-validations", "table:content-validation", "table:error-message", "table:help-message", "table:named-expressions", "table:database-ranges", "table:calculation-settings", "table:tracked-changes",
       "config:config-item-set", "config:config-item", "config:config-item-map-indexed", "config:config-item-map-named", "config:config-item-map-entry", "meta:generator", "meta:keyword", "meta:user-defined", "meta:document-statistic", "meta:template", "meta:auto-reload", "meta:hyperlink-behaviour", "meta:creation-date", "meta:editing-duration", "meta:editing-cycles", "dc:date", "dc:title", "office:binary-data", "svg:title", "svg:desc", "dc:creator", "x:unknown", "unknown"]
ATS = ["table:name", "table:style-name", "table:number-rows-spanned", "table:number-columns-spanned", "table:number-matrix-rows-spanned", "table:number-columns-repeated", "table:number-rows-repeated", "office:value-type", "office:value", "office:currency", "office:date-value", "office:time-value", "office:boolean-value", "office:string-value", "table:formula", "table:visibility", "table:display", "table:print", "table:print-ranges", "table:default-cell-style-name", "style:name", "style:family", "style:parent-style-name", "style:display-name",
       "style:page-layout-name", "table:condition", "table:base-cell-address", "table:allow-empty-cell", "table:display-list", "table:message-type", "table:title", "config:name", "config:type", "meta:name", "meta:value-type", "meta:table-count", "xlink:href", "meta:delay", "office:version", "number:position", "style:volatile", "style:condition", "style:apply-style-name", "style:position", "style:use-optimal-row-height", "style:row-height", "style:column-width", "office:display", "office:name", "xmlns:q", "xml:id"]
TAG = re.compile(r"<(/?)([A-Za-z0-9_:.-]+)((?:\s+[^<>\s=]+=\"[^\"]*\")*)\s*(/?)>")
ATT = re.compile(r"\s+([^<>\s=]+)=\"([^\"]*)\"")
def nasty_for(g, k):
    if "repeated" in k: return g.pick(REPN)
    return odsmk.aesc(g.pick(NASTY))
def mutate_xml(g, x):
    """a few structural changes to an XML text"""
    for _ in range(g.pick([1, 1, 1, 2, 3])):
        tags = list(TAG.finditer(x))
        if not tags: break
        m = g.pick(tags)
        t = g.pick(["attr", "attr", "attr", "noattr", "newattr", "dup", "del", "rename", "insert", "move", "open", "text", "swap", "flip", "trunc", "comment", "cdata", "entity", "pi", "empty", "dupattr", "wrap", "alldel"])
        at = list(ATT.finditer(m.group(3)))
        a0 = m.start(3)
        if t == "attr" and at:
            q = g.pick(at); x = x[:a0 + q.start(2)] + nasty_for(g, q.group(1)) + x[a0 + q.end(2):]
        elif t == "noattr" and at: q = g.pick(at); x = x[:a0 + q.start()] + x[a0 + q.end():]
        elif t == "newattr" and not m.group(1): k = g.pick(ATS); x = x[:m.end(2)] + ' %s="%s"' % (k, nasty_for(g, k)) + x[m.end(2):]
        elif t == "dupattr" and at: q = g.pick(at); x = x[:a0] + q.group(0) + x[a0:]
        elif t == "rename":
            n = g.pick(ELS)
            x = x[:m.start(2)] + n + x[m.end(2):]
            if g.p(0.7):    # the matching end, if it is the next of this name
                e = x.find("</" + m.group(2) + ">", m.start())
                if e >= 0 and not m.group(4): x = x[:e] + "</" + n + ">" + x[e + len(m.group(2)) + 3:]
        elif t == "insert":
            n = g.pick(ELS)
            a = "".join(' %s="%s"' % (k, nasty_for(g, k)) for k in g.r.sample(ATS, g.pick([0, 0, 1, 2])))
            p = g.pick([m.start(), m.end()])
            x = x[:p] + g.pick(["<%s%s/>", "<%s%s></%s>", "<%s%s>t</%s>", "<%s%s>"])[:].replace("%s", n, 1).replace("%s", a, 1).replace("%s", n, 1) + x[p:]
        elif t == "empty" and not m.group(1) and not m.group(4):
            e = x.find("</" + m.group(2) + ">", m.end())
            if e >= 0: x = x[:m.end() - 1] + g.pick(["/>", "></" + m.group(2) + ">"]) + x[e + len(m.group(2)) + 3:]
        elif t in ("dup", "del", "move", "wrap"):
            e = m.end() if m.group(4) or m.group(1) else x.find("</" + m.group(2) + ">", m.end())
            if e < 0: continue
            if not (m.group(4) or m.group(1)): e += len(m.group(2)) + 3
            el = x[m.start():e]
            if t == "dup": x = x[:e] + el * g.pick([1, 1, 3]) + x[e:]
            elif t == "del": x = x[:m.start()] + x[e:]
            elif t == "wrap": n = g.pick(ELS); x = x[:m.start()] + "<" + n + ">" + el + "</" + n + ">" + x[e:]
            else:
                y = x[:m.start()] + x[e:]
                k = [q.start() for q in TAG.finditer(y)]
                if k: p = g.pick(k); x = y[:p] + el + y[p:]
        elif t == "open": x = x[:m.start()] + x[m.end():]
        elif t == "text": x = x[:m.end()] + g.pick(["text", "  ", "&lt;", "1", "\u00e9"]) + x[m.end():]
        elif t == "swap":
            o = g.pick(tags)
            if o.start() > m.end(): x = x[:m.start()] + o.group(0) + x[m.end():o.start()] + m.group(0) + x[o.end():]
        elif t == "flip": p = g.r.randrange(len(x)); x = x[:p] + g.pick("<>&\"'/ =x0\x00\u00ff") + x[p + 1:]
        elif t == "trunc" and g.p(0.3): x = x[:g.r.randrange(len(x))]
        elif t == "comment": x = x[:m.start()] + g.pick(["<!-- c -->", "<!---->", "<!-- <a> -->", "<!--"]) + x[m.start():]
        elif t == "cdata": x = x[:m.end()] + g.pick(["<![CDATA[x]]>", "<![CDATA[<a>]]>", "<![CDATA["]) + x[m.end():]
        elif t == "entity": x = x[:m.end()] + g.pick(["&amp;", "&#65;", "&#x41;", "&unknown;", "&", "&#xFFFFFF;", "&#0;", "&#;"]) + x[m.end():]
        elif t == "pi": x = x[:m.start()] + g.pick(["<?pi x?>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<?"]) + x[m.start():]
        elif t == "alldel":
            n = m.group(2)
            x = re.sub(r"</?" + re.escape(n) + r"(\s[^<>]*)?/?>", "", x)
    return x
def mut_case(g):
    """valid documents with structural damage, as packages and as flat files"""
    d = full_doc(g, g.pick(["ws grp hdr rich", "ws span rich", "grp wrap calcext"]))
    ods, fods = d.pack("ods"), d.pack("fods").decode()
    ops = []
    for _ in range(16):
        if g.p(0.5):
            data = mutate_xml(g, fods).encode("utf-8", "replace")
            ops.append({"op": "try_load", "b64": B64(data), "fmt": "fods", "via": g.pick(["buf", "from", "opt"]), "opts": g.pick([[], ["repeat"], ["noempty"], ["content"]]), "resave": True})
        else:
            part = g.pick(PARTS + ["content.xml"] * 4 + ["styles.xml"] * 2)
            data = repack(ods, lambda n, b: mutate_xml(g, b.decode()).encode("utf-8", "replace") if n == part else b)
            ops.append({"op": "try_load", "b64": B64(data), "fmt": "ods", "via": g.pick(["buf", "from", "opt"]), "opts": g.pick([[], ["repeat"], ["noempty"], ["content"]]), "resave": True})
    return {"ops": ops}
def zip_case(g):
    """damage to the package itself"""
    d = full_doc(g, "grp")
    raw = d.pack("ods", g.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
    ops = []
    for _ in range(20):
        b = bytearray(raw)
        t = g.pick(["flip", "flip", "cut", "cuthead", "fill", "tail", "drop", "dup", "empty", "garbage", "bigname", "cd", "cd", "utf16"])
        if t == "flip":
            for _ in range(g.pick([1, 2, 8, 50])): b[g.r.randrange(len(b))] = g.r.randrange(256)
        elif t == "cut": b = b[:g.r.randrange(len(b))]
        elif t == "cuthead": b = b[g.r.randrange(len(b)):]
        elif t == "fill": p = g.r.randrange(len(b)); n = g.r.randint(1, 64); b[p:p + n] = bytes([g.pick([0, 255])]) * min(n, len(b) - p)
        elif t == "tail": b += bytes(g.r.randrange(256) for _ in range(g.r.randint(1, 300)))
        elif t == "cd":       # central directory fields
            p = raw.rfind(b"PK\x01\x02") if g.p(0.5) else raw.find(b"PK\x01\x02")
            for _ in range(g.pick([1, 3])): b[p + g.r.randrange(4, 46)] = g.pick([0, 1, 255, 127])
        elif t == "empty": b = bytearray(g.pick([b"", b"PK", b"PK\x05\x06" + bytes(18), b"<", b"<?xml version=\"1.0\"?>", b"\xef\xbb\xbf"]))
        elif t == "garbage": b = bytearray(g.r.randrange(256) for _ in range(g.r.randint(0, 400)))
        elif t == "utf16": b = bytearray(repack(raw, lambda n, x: x.decode().encode("utf-16") if n == "content.xml" else x))
        else:
            n0 = g.pick(PARTS + ["mimetype", "Pictures/a.png"])
            def edit(n, x):
                if n != n0: return x
                return None if t == "drop" else b"" if g.p(0.5) else x * 2
            b = bytearray(repack(raw, edit))
        ops.append({"op": "try_load", "b64": B64(bytes(b)), "fmt": g.pick(["ods"] * 9 + ["fods"]), "via": "buf", "resave": True})
    return {"ops": ops}
def deep_case(g):
    """deep nesting and many siblings in a small file"""
    ops = []
    for n in (50, 1000, 20000):
        for el in g.r.sample(["table:table-row-group", "table:table-column-group", "text:span", "text:list", "draw:g", "table:table", "text:section", "config:config-item-set"], 3):
            d = full_doc(g, "grp")
            inner = ("<%s>" % el) * n + ("</%s>" % el) * n
            where = g.pick(["table", "cell", "post", "settings", "meta", "scripts", "styles"])
            if where == "table": d.tables = '<table:table table:name="T">' + inner + "<table:table-row><table:table-cell/></table:table-row></table:table>"
            elif where == "cell": d.tables = '<table:table table:name="T"><table:table-column/><table:table-row><table:table-cell office:value-type="string"><text:p>' + inner + "</text:p></table:table-cell></table:table-row></table:table>"
            elif where == "post": d.post += inner
            elif where == "settings": d.settings += inner
            elif where == "meta": d.meta += inner
            elif where == "scripts": d.scripts = "<office:scripts>" + inner + "</office:scripts>"
            else: d.styles += inner
            fmt = g.pick(["ods", "fods"])
            ops.append({"op": "try_load", "b64": B64(d.pack(fmt)), "fmt": fmt, "via": "buf", "resave": True})
    return {"ops": ops}
def rich_doc(g):
    """a document with every kind of element the library knows"""
    from profiles_reg import Mk, add_looks, add_meta, settings_tree, LOOKS, carried_doc
    from regmk import cfg_tree
    m = Mk(g)
    f = full_doc(g)
    d = carried_doc(g, m)
    add_looks(g, m, d, LOOKS, 24)
    add_meta(g, m, d, 12)
    d.settings = "".join(odsmk.xml(cfg_tree(t)) for t in settings_tree(g, m, ["T1", "T2"]))
    for k in ("auto", "styles", "sauto", "master", "fonts", "sfonts", "meta", "settings", "pre", "post", "tables"): setattr(d, k, getattr(f, k) + getattr(d, k))
    return d
def walk(x):
    """(open elements, match) of every tag"""
    st = []
    for m in TAG.finditer(x):
        if m.group(1):
            if st: st.pop()
            yield tuple(st), m
        else:
            yield tuple(st) + (m.group(2),), m
            if not m.group(4): st.append(m.group(2))
def one_each(g, it, key):
    """one random occurrence per key"""
    by = {}
    for q in it: by.setdefault(key(q), []).append(q)
    return [g.pick(v) for _, v in sorted(by.items())]
def damaged(g, d, part, text, **kw):
    """the document with one part replaced"""
    if part is None: return dict({"op": "try_load", "b64": B64(text.encode("utf-8", "replace")), "fmt": "fods", "via": g.pick(["buf", "from", "opt"]), "opts": g.pick([[], ["repeat"], ["noempty"]])}, **kw)
    return dict({"op": "try_load", "b64": B64(repack(d, lambda n, b: text.encode("utf-8", "replace") if n == part else b)), "fmt": "ods", "via": g.pick(["buf", "from", "opt"]), "opts": g.pick([[], ["repeat"], ["noempty"]])}, **kw)
def parts_of(g, d):
    """the texts to damage: the flat file, or one part of the package"""
    if g.p(0.6): return None, None, d.pack("fods").decode()
    raw, part = d.pack("ods"), g.pick(PARTS + ["content.xml", "styles.xml"])
    return raw, part, zipfile.ZipFile(io.BytesIO(raw)).read(part).decode()
def cut_sweep(g):
    """the file ends inside of every kind of element: refused, never a hang"""
    raw, part, x = parts_of(g, rich_doc(g) if g.p(0.7) else full_doc(g))
    ops = []
    for p, m in one_each(g, (q for q in walk(x) if not q[1].group(1) and not q[1].group(4)), lambda q: q[0][-3:]):
        ops.append(damaged(g, raw, part, x[:m.end()] + g.pick(["", "", "t", " ", "<!-- c -->", "<a/>"]), must="err"))
    return {"ops": ops}
def attr_sweep(g):
    """every attribute of every element once with a nonsensical value, or without it"""
    raw, part, x = parts_of(g, rich_doc(g))
    at = ((p, m, q) for p, m in walk(x) if not m.group(1) for q in ATT.finditer(m.group(3)))
    ops = []
    for p, m, q in one_each(g, at, lambda y: (y[0][-1], y[2].group(1))):
        a0 = m.start(3)
        y = x[:a0 + q.start()] + x[a0 + q.end():] if g.p(0.1) else x[:a0 + q.start(2)] + nasty_for(g, q.group(1)) + x[a0 + q.end(2):]
        ops.append(damaged(g, raw, part, y, resave=True))
    return {"ops": ops}
def elem_sweep(g):
    """every element once missing, doubled, emptied, renamed, wrapped, with other content, or with text for the value it holds"""
    raw, part, x = parts_of(g, rich_doc(g))
    ops = []
    for p, m in one_each(g, (q for q in walk(x) if not q[1].group(1)), lambda q: q[0][-2:]):
        n, e = m.group(2), m.end()
        if not m.group(4):
            depth = 1
            for k in re.compile(r"<(/?)%s(?:\s[^<>]*?)?(/?)>" % re.escape(n)).finditer(x, m.end()):
                if k.group(1): depth -= 1
                elif not k.group(2): depth += 1
                if depth == 0: e = k.end(); inner = x[m.end():k.start()]; break
            else: continue
        else: inner = ""
        el, open_ = x[m.start():e], x[m.start():m.end()].rstrip("/>").rstrip()
        if g.p(0.5): open_ = "<" + n
        o = g.pick(ELS)
        y = {"del": "", "dup": el * 2, "empty": open_ + "/>", "pair": open_ + "></" + n + ">", "text": open_ + ">" + odsmk.aesc(g.pick(NASTY)) + "</" + n + ">", "unwrap": inner, "wrap": "<%s>%s</%s>" % (o, el, o), "rename": "<%s>%s</%s>" % (o, inner, o),
             "child": open_ + "><%s/>" % o + inner + "</" + n + ">", "more": open_ + ">" + inner + "<%s>x</%s>" % (o, o) + "</" + n + ">", "noattr": "<" + n + ">" + inner + "</" + n + ">", "self": open_ + ">" + el + "</" + n + ">"}
        ops.append(damaged(g, raw, part, x[:m.start()] + y[g.pick(sorted(y))] + x[e:], resave=True))
    return {"ops": ops}
ALL["P20"] = Profile([], [], [(mut_case, 300, 6000), (zip_case, 60, 1200), (deep_case, 6, 60), (cut_sweep, 8, 150), (attr_sweep, 16, 500), (elem_sweep, 16, 500)], limit_ms=30000)

# ------------------------------------------------------------------ rich content (P22)
TX = ["a", "x y", " ", "  ", " lead", "trail ", "a  b", "é", "日本", "😀", "<&>", "\"q\" 'r'", "&amp;", "]]>", "\ta", "l1\nl2", "0"]
def inline(g, d, force=False):
    """children of a paragraph or span: adjacent texts are one text"""
    out = []
    for _ in range(g.cnt([0, 1, 1, 2, 3]) if not force else g.pick([1, 2, 3])):
        if g.p(0.45) and not (out and isinstance(out[-1], str)): out.append(g.pick(TX)); continue
        t = g.pick(["text:span", "text:span", "text:a", "text:s", "text:tab", "text:line-break", "text:bookmark", "text:ruby", "text:date", "text:sheet-name", "text:note", "draw:frame", "office:annotation"])
        if t == "text:s": out.append([t, [["text:c", "3"]] if g.p(0.5) else [], []])
        elif t in ("text:tab", "text:line-break"): out.append([t, [], []])
        elif t == "text:bookmark": out.append([t, [["text:name", g.pick(TX)]], []])
        elif t == "text:sheet-name": out.append([t, [], ["S"]])
        elif t == "text:date": out.append([t, [["style:data-style-name", "N1"], ["text:date-value", "2020-01-01"]], ["1.1.20"]])
        elif d <= 0: out.append(["text:span", [], [g.pick(TX)]])
        elif t == "text:ruby": out.append([t, [["text:style-name", "R"]], [["text:ruby-base", [], inline(g, d - 1)], ["text:ruby-text", [], [g.pick(TX)]]]])
        elif t == "text:note": out.append([t, [["text:note-class", "footnote"]], [["text:note-citation", [], ["1"]], ["text:note-body", [], [para_tree(g, d - 1)]]]])
        elif t == "draw:frame": out.append([t, [["draw:name", g.pick(TX)]], [["draw:text-box", [], [para_tree(g, d - 1)]]]])
        elif t == "office:annotation": out.append([t, [], [["dc:creator", [], ["me"]], ["text:p", [], [g.pick(TX)]]]])
        elif t == "text:a": out.append([t, sorted([["xlink:href", g.pick(["http://x/?a=1&b=2", "#T.A1", "mailto:x@y"])], ["xlink:type", "simple"]][:g.pick([1, 2])]), inline(g, d - 1)])
        else: out.append([t, [["text:style-name", g.pick(["T1", "T <2>"])]] if g.p(0.6) else [], inline(g, d - 1)])
    return out
def has_el(c): return any(not isinstance(x, str) for x in c)
def para_tree(g, d): return ["text:p", [["text:style-name", "P1"]] if g.p(0.3) else [], inline(g, d)]
def top_para(g, d):
    """a paragraph of a cell; attributes of paragraphs that are text only are a known finding"""
    p = para_tree(g, d)
    if not has_el(p[2]): p[1] = []
    return p
def block(g, d):
    t = g.pick(["p", "p", "p", "h", "list"])
    if t == "p" or d <= 0: return top_para(g, d)
    if t == "h": return ["text:h", [["text:outline-level", "2"]] if g.p(0.6) else [], inline(g, d - 1, True)]
    return list_tree(g, d)
def list_tree(g, d):
    return ["text:list", [["text:style-name", "L1"]] if g.p(0.4) else [], ([["text:list-header", [], [para_tree(g, d - 1)]]] if g.p(0.2) else []) +
            [["text:list-item", [["text:start-value", "3"]] if g.p(0.2) else [], [list_tree(g, d - 2) if g.p(0.3) and d > 1 else para_tree(g, d - 1) for _ in range(g.cnt([1, 1, 2]))]] for _ in range(g.pick([1, 2]))]]
def rich_v(g, d=4):
    for _ in range(50):
        v = [block(g, g.pick([1, 2, 3, d])) for _ in range(g.cnt([1, 1, 2, 3]))]
        if not all(x[0] == "text:p" and not x[1] and not has_el(x[2]) for x in v): return {"k": "xml", "v": [js(x) for x in v]}
    return g.value_k("xml")
def rich_ann(g):
    at = sorted(g.r.sample([["draw:style-name", "gr1"], ["svg:width", "3cm"], ["svg:x", "1cm"], ["draw:caption-point-x", "-0.6cm"], ["table:end-cell-address", "T.A1"], ["draw:text-style-name", "<P>"]], g.pick([0, 1, 2, 4])))
    return js([g.pick(["", "n1", "a<b>\"&"]), g.pick([True, False]), [g.pick(TX)] if g.p(0.5) else [], g.dt() if g.p(0.5) else [], [g.pick([para_tree, list_tree])(g, g.pick([1, 3])) for _ in range(g.cnt([0, 1, 1, 2]))], at])
def rich_frame(g):
    import base64
    b = base64.b64encode(bytes(g.r.randrange(256) for _ in range(g.size([1, 2, 3, 30, 200])))).decode()
    at = sorted(g.r.sample([["draw:name", g.pick(TX)], ["svg:width", "2cm"], ["svg:x", "1cm"], ["draw:z-index", "0"], ["table:end-cell-address", "T.B3"], ["draw:transform", "rotate (1) translate (1cm 2cm)"]], g.pick([0, 1, 2, 4])))
    return js([[g.pick(TX)] if g.p(0.4) else [], [g.pick(TX)] if g.p(0.4) else [], at,
               [[sorted([["xlink:href", "Pictures/a.png"], ["xlink:type", "simple"], ["draw:mime-type", "image/png"]][:g.pick([0, 1, 3])]), [b] if g.p(0.5) else [], [para_tree(g, 2)] if g.p(0.4) else []] for _ in range(g.cnt([1, 1, 0, 2]))]])
def rich_case(g):
    ops = list(PRE1)
    k = 0
    for _ in range(g.pick([4, 8, 12])):
        r, c = divmod(k, 3); k += g.pick([1, 1, 2])
        at = {"b": 0, "s": 0, "r": r, "c": c}
        if g.p(0.8): ops.append(dict(at, op="set_value", v=rich_v(g) if g.p(0.7) else g.value()))
        if g.p(0.4): ops.append(dict(at, op="set_ann", x=rich_ann(g)))
        for _ in range(g.cnt([0, 0, 1, 2])): ops.append(dict(at, op="add_frame", x=rich_frame(g)))
        if g.p(0.1): ops.append(dict(at, op=g.pick(["clear_ann", "clear_frames"])))
        if g.p(0.1): ops += [dict(at, op="copy_cell", clip=0), dict(at, op="add_cell", clip=0, c=c + 5)]
        if g.p(0.1): ops.append(dict(at, op="set_col_span", n=2))
    ops.append(q_book(0))
    sv = save(g, 0, "f")
    ops += [sv, q_book(0), load(g, sv, 1)]
    sv2 = save(g, 1, "f2")
    return {"ops": ops + [sv2, load(g, sv2, 2), {"op": "same", "b": 1, "b2": 2}]}
def ann_xml(j):
    name, disp, cr, dt, txt, at = json.loads(j)
    a = list(at) + ([["office:name", name]] if name else []) + ([["office:display", "true"]] if disp else [])
    c = [["dc:creator", [], [x] if x else []] for x in cr]
    if dt: c.append(["dc:date", [], ["%s-%s-%sT%s:%s:%s.%s" % (dt[0].zfill(4), dt[1], dt[2], dt[3], dt[4], dt[5], dt[6])]])
    return ["office:annotation", a, c + txt]
def frame_xml(j, g):
    ti, de, at, im = json.loads(j)
    c = [["draw:image", a, txt + ([["office:binary-data", [], [b[0] if g.p(0.5) else "\n".join(b[0][i:i + 72] for i in range(0, len(b[0]), 72)) + "\n"]]] if b else [])] for a, b, txt in im]
    return ["draw:frame", at, c + [["svg:title", [], [x] if x else []] for x in ti] + [["svg:desc", [], [x] if x else []] for x in de]]
def rich_file(g):
    d = odsmk.Doc()
    d.auto = odsmk.base_styles()
    d.styles = '<style:style style:name="Default" style:family="table-cell"/>'
    rows = ""
    exp = lambda: g.p(0.3)
    for r in range(g.pick([1, 2, 3])):
        row = ""
        for c in range(3):
            v = rich_v(g) if g.p(0.6) else g.value()
            a, kids = odsmk.val_attrs(g, v)
            kids = list(kids)
            if v["k"] == "text": kids = [k for k in kids]
            pre = []
            if g.p(0.4): pre.append(ann_xml(rich_ann(g)))
            for _ in range(g.cnt([0, 0, 1, 2])): pre.append(frame_xml(rich_frame(g), g))
            allk = pre + kids if g.p(0.7) else kids + pre
            ws = lambda: g.pick(["", "", "\n  "])
            inner = "".join(ws() + odsmk.xml(k, exp) for k in allk)
            row += "<table:table-cell" + "".join(' %s="%s"' % (k, odsmk.aesc(x)) for k, x in a) + ">" + inner + ws() + "</table:table-cell>"
        rows += "<table:table-row>" + row + "</table:table-row>"
    d.tables = '<table:table table:name="T"><table:table-column table:number-columns-repeated="3"/>' + rows + "</table:table>"
    fmt = g.pick(["ods", "fods"])
    ops = [{"op": "put_file", "file": "f", "fmt": fmt, "b64": B64(d.pack(fmt))}, {"op": "load", "b": 0, "fmt": fmt, "via": g.pick(LOADS[fmt]), "file": "f", "prow": [], "pcol": [], "facts": False}]
    sv = save(g, 0, "f2")
    return {"ops": ops + [sv, load(g, sv, 1), {"op": "same", "b": 0, "b2": 1}]}
def img_case(g):
    import base64
    ops = []
    for n in list(range(0, 10)) + [g.r.randint(10, 120) for _ in range(4)]:
        b = [g.r.randrange(256) for _ in range(n)]
        t = base64.b64encode(bytes(b)).decode()
        k = g.r.randint(1, 80)
        ops.append({"op": "img", "v": b, "texts": [t, t.rstrip("="), "\n".join(t[i:i + k] for i in range(0, len(t), k)) + "\n", "  " + t + " \r\n\t"]})
    return {"ops": ops}
ALL["P22"] = Profile([], [], [(img_case, 10, 300), (rich_case, 320, 6000), (rich_file, 320, 6000)])
