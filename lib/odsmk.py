"""Makes ODS / FODS files as other applications may write them (independent of the library)."""
import io, re, zipfile
from xml.sax.saxutils import escape
import odstok
PFX = {v: k for k, v in odstok.NS.items()}
USED = ["office", "meta", "config", "text", "table", "draw", "style", "number", "fo", "svg", "dc", "xlink", "of", "script", "form", "chart", "presentation", "calcext", "loext", "ooo", "tableooo"]
VER = 'office:version="1.3"'
MIME = "application/vnd.oasis.opendocument.spreadsheet"
def nsdecl(extra=()): return " ".join('xmlns:%s="%s"' % (p, PFX[p]) for p in USED) + "".join(' xmlns:%s="%s"' % (p, u) for p, u in extra)
SPELL = [None]       # a generator: texts are written with arbitrary spellings of their characters
class spelled:
    def __init__(s, g): s.g = g
    def __enter__(s): SPELL[0] = s.g
    def __exit__(s, *a): SPELL[0] = None
NAMED_ENT = {"&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&apos;", '"': "&quot;"}
def sesc(g, s, attr):
    if re.fullmatch(r"[A-Za-z0-9.:+%_-]*", s): return s      # numbers, keywords: nobody spells them differently
    out, i = "", 0
    while i < len(s):
        c, x = s[i], g.r.random()
        if not attr and x < 0.08:
            n = s[i:i + g.pick([1, 2, 5])]
            if "]]>" not in n and "\r" not in n: out += "<![CDATA[" + n + "]]>"; i += len(n); continue
        if x < 0.16: out += g.pick(["&#%d;", "&#x%x;", "&#x%X;", "&#0%d;"]) % ord(c)
        elif c in NAMED_ENT: out += NAMED_ENT[c]
        elif c == "\r" or (attr and c in "\t\n"): out += "&#%d;" % ord(c)
        else: out += c
        i += 1
    return out
def aesc(s): return sesc(SPELL[0], s, True) if SPELL[0] else escape(s, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
def tesc(s): return sesc(SPELL[0], s, False) if SPELL[0] else escape(s, {"\r": "&#13;"})
def xml(t, exp=None):
    """tree [name, [[k,v]], [child]] -> text; exp() decides on the expanded form of empty elements"""
    n, a, c = t
    h = "<" + n + "".join(' %s="%s"' % (k, aesc(v)) for k, v in a)
    if not c and not (exp and exp()): return h + "/>"
    return h + ">" + "".join(tesc(x) if isinstance(x, str) else xml(x, exp) for x in c) + "</" + n + ">"
DECL = '<?xml version="1.0" encoding="UTF-8"?>\n'

class Doc:
    """sections as XML text; pack() makes the file"""
    def __init__(s):
        s.scripts = s.fonts = s.auto = s.pre = s.tables = s.post = ""
        s.sfonts = s.styles = s.sauto = s.master = ""
        s.meta = s.settings = ""
        s.files = []        # (path, media type, bytes)
        s.dirs = []         # manifest only entries
        s.extra_ns = ()
    def body(s): return "<office:body><office:spreadsheet>" + s.pre + s.tables + s.post + "</office:spreadsheet></office:body>"
    def pack(s, fmt, method=zipfile.ZIP_DEFLATED):
        ns = nsdecl(s.extra_ns)
        if fmt == "fods":
            return (DECL + '<office:document %s %s office:mimetype="%s">' % (ns, VER, MIME) +
                    ("<office:meta>" + s.meta + "</office:meta>" if s.meta else "") + ("<office:settings>" + s.settings + "</office:settings>" if s.settings else "") +
                    s.scripts + ("<office:font-face-decls>" + s.fonts + s.sfonts + "</office:font-face-decls>" if s.fonts or s.sfonts else "") +
                    ("<office:styles>" + s.styles + "</office:styles>" if s.styles else "") +
                    ("<office:automatic-styles>" + s.auto + s.sauto + "</office:automatic-styles>" if s.auto or s.sauto else "") +
                    ("<office:master-styles>" + s.master + "</office:master-styles>" if s.master else "") + s.body() + "</office:document>").encode()
        parts = {"content.xml": DECL + "<office:document-content %s %s>" % (ns, VER) + s.scripts + ("<office:font-face-decls>" + s.fonts + "</office:font-face-decls>" if s.fonts else "") +
                 ("<office:automatic-styles>" + s.auto + "</office:automatic-styles>" if s.auto else "") + s.body() + "</office:document-content>"}
        parts["styles.xml"] = (DECL + "<office:document-styles %s %s>" % (ns, VER) + ("<office:font-face-decls>" + s.sfonts + "</office:font-face-decls>" if s.sfonts else "") +
            ("<office:styles>" + s.styles + "</office:styles>" if s.styles else "") + ("<office:automatic-styles>" + s.sauto + "</office:automatic-styles>" if s.sauto else "") +
            ("<office:master-styles>" + s.master + "</office:master-styles>" if s.master else "") + "</office:document-styles>")
        parts["meta.xml"] = DECL + "<office:document-meta %s %s><office:meta>" % (ns, VER) + s.meta + "</office:meta></office:document-meta>"
        parts["settings.xml"] = DECL + "<office:document-settings %s %s><office:settings>" % (ns, VER) + s.settings + "</office:settings></office:document-settings>"
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", method) as z:
            z.writestr(zipfile.ZipInfo("mimetype"), MIME)
            man = DECL + '<manifest:manifest xmlns:manifest="%s" manifest:version="1.3"><manifest:file-entry manifest:full-path="/" manifest:version="1.3" manifest:media-type="%s"/>' % (PFX["manifest"], MIME)
            for n in parts: man += '<manifest:file-entry manifest:full-path="%s" manifest:media-type="text/xml"/>' % n
            for n in s.dirs: man += '<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"/>' % (aesc(n[0]), aesc(n[1]))
            for n, mt, b in s.files: man += '<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"/>' % (aesc(n), aesc(mt))
            man += "</manifest:manifest>"
            for n, t in parts.items(): z.writestr(n, t.encode())
            for n, mt, b in s.files: z.writestr(n, b)
            z.writestr("META-INF/manifest.xml", man.encode())
        return out.getvalue()

# ------------------------------------------------------------------ tables
ROWSTY = [("fro1", "1cm", False), ("fro2", "0.5in", False), ("fro3", "12pt", True)]
COLSTY = [("fco1", "2cm", False), ("fco2", "33mm", False), ("fco3", "64pt", True)]
CELSTY = ["fce1", "fce2", "fce3"]
def base_styles():
    s = ""
    for n, l, o in ROWSTY: s += '<style:style style:name="%s" style:family="table-row"><style:table-row-properties style:row-height="%s" style:use-optimal-row-height="%s"/></style:style>' % (n, l, str(o).lower())
    for n, l, o in COLSTY: s += '<style:style style:name="%s" style:family="table-column"><style:table-column-properties style:column-width="%s"%s/></style:style>' % (n, l, ' style:use-optimal-column-width="true"' if o else "")
    for n in CELSTY: s += '<style:style style:name="%s" style:family="table-cell" style:parent-style-name="Default"><style:table-cell-properties fo:padding="0.71mm"/></style:style>' % n
    return s
def num_text(g, f):
    """one of the lexical variants of a number"""
    r = repr(f)
    v = [r]
    if f == int(f) and abs(f) < 1e15: v += [str(int(f)), "%d.0" % f, "%d.000" % f]
    v += ["%.17e" % f, ("%.17E" % f)]
    return g.pick(v) if not (f == 0 and str(f)[0] == "-") else r
def val_attrs(g, v):
    """attributes and content of a cell with this value, in some lexical variant"""
    k, a = v["k"], v["v"]
    import struct
    f = lambda h: struct.unpack(">d", bytes.fromhex(h))[0]
    P = lambda l: [["text:p", [], [x] if x else []] for x in l]
    if k == "empty": return [], []
    if k == "bool": return [["office:value-type", "boolean"], ["office:boolean-value", a[0]]], P([a[0].upper()]) if g.p(0.7) else []
    if k == "num": return [["office:value-type", "float"], ["office:value", num_text(g, f(a[0]))]], P(["n"]) if g.p(0.7) else []
    if k == "pct": return [["office:value-type", "percentage"], ["office:value", num_text(g, f(a[0]))]], P(["p%"]) if g.p(0.7) else []
    if k == "cur": return [["office:value-type", "currency"], ["office:currency", a[1]], ["office:value", num_text(g, f(a[0]))]], P(["c"]) if g.p(0.7) else []
    if k == "dt":
        y = a[0].zfill(4)
        d = "%s-%s-%s" % (y, a[1], a[2])
        fr = a[6].rstrip("0")
        t = "T%s:%s:%s" % (a[3], a[4], a[5]) + (g.pick(["." + fr, "." + a[6]]) if fr else g.pick(["", ".0", ".000000000"]))
        if a[3:] == ["00", "00", "00", "000000000"]:
            x = g.r.random()
            if x < 0.5: t = ""
            elif x < 0.7 and int(y) > 1:
                # the same instant as the end of the day before
                import datetime
                p = datetime.date(int(y), int(a[1]), int(a[2])) - datetime.timedelta(1)
                d, t = "%04d-%02d-%02d" % (p.year, p.month, p.day), "T24:00:00" + g.pick(["", ".0"])
        if g.p(0.1): t += "Z"
        return [["office:value-type", "date"], ["office:date-value", d + t]], P(["d"]) if g.p(0.7) else []
    if k == "dur":
        sg = "-" if a[0] == "-" else ""
        h, m, s_, fr = int(a[1]), int(a[2]), int(a[3]), a[4].rstrip("0")
        fs = "." + fr if fr else ""
        forms = ["PT%02dH%02dM%02d%sS" % (h, m, s_, fs), "PT%dH%dM%d%sS" % (h, m, s_, fs)]
        if h < 1000:
            forms.append("P%dDT%dH%dM%d%sS" % (h // 24, h % 24, m, s_, fs))
            if not (h or m): forms.append("PT%d%sS" % (s_, fs))
            if not (m or s_ or fs): forms.append("PT%dH" % h)
            if not (s_ or fs): forms.append("PT%dH%dM" % (h, m)); forms.append("PT%dM" % (h * 60 + m))
            if h % 24 == 0 and not (m or s_ or fs) and h: forms.append("P%dD" % (h // 24))
            forms.append("PT%d%sS" % (h * 3600 + m * 60 + s_, fs))
        return [["office:value-type", "time"], ["office:time-value", sg + g.pick(forms)]], P(["t"]) if g.p(0.7) else []
    if k == "text":
        if g.p(0.2): return [["office:value-type", "string"], ["office:string-value", "\n".join(a)]], P(["shown"]) if g.p(0.5) else []
        return [["office:value-type", "string"]], P(a)
    import json
    return [["office:value-type", "string"]], [json.loads(x) for x in a]

class TableGen:
    """a random valid table layout"""
    def __init__(s, g, F):
        s.g, s.F = g, F
        s.exp = lambda: g.p(0.3)
    def ws(s): return s.g.pick(["", "", "", "\n", "  ", "\n<!-- c -->"]) if "ws" in s.F else ""
    def el(s, n, a, inner="", force=False):
        h = "<" + n + "".join(' %s="%s"' % (k, aesc(v)) for k, v in a)
        if not inner and not s.exp(): return h + "/>"
        return h + ">" + inner + "</" + n + ">"
    def line_attrs(s, row):
        g, a = s.g, []
        if g.p(0.4): a.append(["table:style-name", g.pick([x[0] for x in (ROWSTY if row else COLSTY)])])
        if g.p(0.25) if "dcs" not in s.F else not row and g.p(0.8): a.append(["table:default-cell-style-name", g.pick(CELSTY if "dcs" not in s.F else CELSTY[:2])])
        if g.p(0.2): a.append(["table:visibility", g.pick(["visible", "collapse", "filter"])])
        return a
    def rep(s, n): return n
    def cols(s, width):
        """width columns split in runs"""
        g, out, left = s.g, [], width
        while left:
            n = min(left, g.pick([1, 1, 1, 2, 3, left]))
            a = s.line_attrs(False)
            if n > 1 or g.p(0.1): a.append(["table:number-columns-repeated", str(n)])
            out.append((n, s.el("table:table-column", a)))
            left -= n
        return out
    def cell_toks(s, width):
        """cells of a row token of at most width columns: [(n, attrs, children, covered)]"""
        g, out, left = s.g, [], width
        if g.p(0.15): return out
        while left > 0 and g.p(0.85):
            n = min(left, g.pick([1, 1, 1, 1, 2, 3, 7, left if g.p(0.2) else 1]))
            a, c = [], []
            if "dcs" in s.F and g.p(0.7):
                # cells that carry a style only, next to the styles the columns give
                n = min(left, g.pick([1, 2, 2, 3, 3, 4, 5]))
                a.append(["table:style-name", g.pick(CELSTY[:2])])
                if n > 1: a.append(["table:number-columns-repeated", str(n)])
                out.append([n, a, c, False]); left -= n
                continue
            if g.p(0.35): a.append(["table:style-name", g.pick(CELSTY)])
            x = g.r.random()
            if x < 0.6:
                kinds = ["bool", "num", "pct", "cur", "text", "dt", "dur"] + (["xml"] if "rich" in s.F else [])
                va, c = val_attrs(g, g.value(kinds))
                a += va
                if "calcext" in s.F and g.p(0.3): a.append(["calcext:value-type", a[-2][1] if False else dict(map(tuple, va))["office:value-type"]])
            if g.p(0.15): a.append(["table:formula", "of:=" + g.pick(["1+1", "SUM([.A1:.B2])", "[.A1]&\"<x>\""])])
            if g.p(0.1): a.append(["table:content-validation-name", "val1"])
            if n > 1 or g.p(0.05): a.append(["table:number-columns-repeated", str(n)])
            g.r.shuffle(a)
            out.append([n, a, c, False])
            left -= n
        return out
    def nest(s, items, gname, hname, wname, header, depth=0):
        """wraps runs of lines in groups, a header block and plain wrappers; items: [(count, xml)]"""
        g = s.g
        out, i = "", 0
        if header is not None and depth == 0:
            lo, hi = header
            body = lambda l, d: s.nest(l, gname, hname, wname, None, d)
            return body(items[:lo], 0) + s.ws() + s.el(hname, [], "".join(x for _, x in items[lo:hi])) + s.ws() + body(items[hi:], 0)
        while i < len(items):
            x = g.r.random()
            k = g.r.randint(1, len(items) - i)
            if x < 0.25 and "grp" in s.F and depth < 3:
                a = [["table:display", g.pick(["true", "false"])]] if g.p(0.5) else []
                out += s.ws() + s.el(gname, a, s.nest(items[i:i + k], gname, hname, wname, None, depth + 1))
                i += k
            elif x < 0.35 and "wrap" in s.F:
                out += s.ws() + s.el(wname, [], "".join(y for _, y in items[i:i + k]))
                i += k
            else:
                out += s.ws() + items[i][1]
                i += 1
        if "grp" in s.F and g.p(0.05): out += s.el(gname, [])      # a group without lines
        return out + s.ws()
    def table(s, name):
        g = s.g
        width = g.pick([1, 2, 3, 4, 5, 6, 8])
        decl = width + g.pick([0, 0, 1, 5, 16384 - width if "big" in s.F else 2])
        nrows = g.pick([1, 2, 3, 4, 6] + [7, 8] * ("long" in s.F))
        lrow = g.r.randrange(nrows) if "long" in s.F else -1
        if nrows > 6: lrow = g.pick([0, 1, 1, 2, 2])
        wrow = -1               # a long run of equal cells instead of a long run of rows
        if lrow >= 0 and g.p(0.35): wrow, lrow = min(lrow, nrows - 1), -1; nrows = min(nrows, 3); wrow = g.r.randrange(nrows)
        rows, cov = [], {}     # cov: row offset (token) -> set of covered columns; spans only between single rows
        for r in range(nrows):
            toks = s.cell_toks(width if r != lrow else min(width, 2))
            if r == wrow:
                wn = g.pick([1000, 1023, 1024, 1025, 1400]); va, c = val_attrs(g, g.value(["num", "text", "bool"]))
                toks.insert(g.r.randint(0, len(toks)), [wn, va + [["table:number-columns-repeated", str(wn)]], c, False]); decl += wn
            while nrows > 6 and not any(a[0] == "office:value-type" for t in toks for a in t[1]): toks = s.cell_toks(min(width, 2))
            if "span" in s.F:
                # expand to single positions so that spans can be laid over them
                line, cpos = [], 0
                for n, a, c, _ in toks:
                    for j in range(n):
                        aa = [x for x in a if x[0] != "table:number-columns-repeated"]
                        line.append([1, aa, c, (cpos + j) in cov.get(r, ())])
                    cpos += n
                while len(line) < width and (set(range(len(line), width)) & cov.get(r, set())): line.append([1, [], [], len(line) in cov.get(r, ())])
                for p, t in enumerate(line):
                    if not t[3] and g.p(0.15):
                        rs = g.r.randint(1, min(3, nrows - r)); cs = g.r.randint(1, min(3, width - p))
                        area = [(r + i, p + j) for i in range(rs) for j in range(cs)]
                        if (rs, cs) != (1, 1) and not any(q[1] in cov.get(q[0], ()) for q in area if q != (r, p)):
                            t[1] = t[1] + [["table:number-rows-spanned", str(rs)], ["table:number-columns-spanned", str(cs)]]
                            for q in area:
                                if q != (r, p): cov.setdefault(q[0], set()).add(q[1])
                            while len(line) < p + cs: line.append([1, [], [], True])
                            for j in range(1, cs): line[p + j][3] = True
                toks = line
            rows.append(toks)
        items = []
        for r, toks in enumerate(rows):
            a = s.line_attrs(True)
            n = 1 if "span" in s.F or r == wrow else g.pick([1, 1, 1, 2, 3, 5])
            if r == lrow: n = g.pick([999, 1000, 1001, 1001, 1500])
            if n > 1 or g.p(0.1): a.append(["table:number-rows-repeated", str(n)])
            inner = ""
            run = []
            for t in toks:
                x = s.el("table:covered-table-cell" if t[3] else "table:table-cell", t[1], s.ws() + "".join(xml(c, s.exp) + s.ws() for c in t[2]) if t[2] else "")
                inner += s.ws() + x
            items.append((n, s.el("table:table-row", a, inner + (s.ws() if inner else ""))))
        # trailing empty rows as office suites write them
        if "tail" in s.F and g.p(0.4): items.append((1048576 - 100, s.el("table:table-row", [["table:number-rows-repeated", str(1048576 - 100)]], s.el("table:table-cell", [["table:number-columns-repeated", str(decl)]]))))
        hdr = None
        if "hdr" in s.F and g.p(0.4):
            lo = g.r.randrange(len(items)); hdr = (lo, g.r.randint(lo + 1, len(items)))
        citems = s.cols(decl)
        chdr = None
        if "hdr" in s.F and g.p(0.4):
            lo = g.r.randrange(len(citems)); chdr = (lo, g.r.randint(lo + 1, len(citems)))
        inner = s.nest(citems, "table:table-column-group", "table:table-header-columns", "table:table-columns", chdr)
        inner += s.nest(items, "table:table-row-group", "table:table-header-rows", "table:table-rows", hdr)
        ta = [["table:name", name]]
        if g.p(0.3): ta.append(["table:style-name", "fta1"])
        if g.p(0.2): ta.append(["table:print", g.pick(["true", "false"])])
        if g.p(0.2): ta.append(["table:display", g.pick(["true", "false"])])
        if g.p(0.2): ta.append(["table:print-ranges", g.pick(["'%s'.A1:'%s'.B2" % (name, name), "$'%s'.$A$1:$'%s'.$B$2 $'%s'.C3:$'%s'.D4" % (name, name, name, name)])])
        return s.el("table:table", ta, inner)

def table_file(g, F, sheets=1, fmt=None):
    d = Doc()
    d.auto = base_styles() + '<style:style style:name="fta1" style:family="table"/>'
    d.styles = '<style:style style:name="Default" style:family="table-cell"/>'
    t = TableGen(g, F)
    d.pre = '<table:content-validations><table:content-validation table:name="val1"/></table:content-validations>'
    d.tables = "".join(t.table("T%d" % (i + 1)) for i in range(sheets))
    fmt = fmt or g.pick(["ods", "fods"])
    return fmt, d.pack(fmt, g.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
