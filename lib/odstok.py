"""Independent reading of ODS packages and flat ODS files: zipfile + expat, nothing of the library.
Produces the token structure the specification (Denote.tla, Facts.tla) gives a meaning to."""
import io, json, struct, zipfile
import xml.parsers.expat as expat

NS = {
 "urn:oasis:names:tc:opendocument:xmlns:office:1.0": "office",
 "urn:oasis:names:tc:opendocument:xmlns:meta:1.0": "meta",
 "urn:oasis:names:tc:opendocument:xmlns:config:1.0": "config",
 "urn:oasis:names:tc:opendocument:xmlns:text:1.0": "text",
 "urn:oasis:names:tc:opendocument:xmlns:table:1.0": "table",
 "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0": "draw",
 "urn:oasis:names:tc:opendocument:xmlns:presentation:1.0": "presentation",
 "urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0": "dr3d",
 "urn:oasis:names:tc:opendocument:xmlns:chart:1.0": "chart",
 "urn:oasis:names:tc:opendocument:xmlns:form:1.0": "form",
 "urn:oasis:names:tc:opendocument:xmlns:script:1.0": "script",
 "urn:oasis:names:tc:opendocument:xmlns:style:1.0": "style",
 "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0": "number",
 "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0": "manifest",
 "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0": "fo",
 "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0": "svg",
 "urn:oasis:names:tc:opendocument:xmlns:smil-compatible:1.0": "smil",
 "urn:oasis:names:tc:opendocument:xmlns:animation:1.0": "anim",
 "urn:oasis:names:tc:opendocument:xmlns:of:1.2": "of",
 "http://purl.org/dc/elements/1.1/": "dc",
 "http://www.w3.org/1999/xlink": "xlink",
 "http://www.w3.org/XML/1998/namespace": "xml",
 "http://www.w3.org/1998/Math/MathML": "math",
 "http://www.w3.org/1999/xhtml": "xhtml",
 "http://www.w3.org/2003/g/data-view#": "grddl",
 "urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0": "loext",
 "urn:org:documentfoundation:names:experimental:calc:xmlns:calcext:1.0": "calcext",
 "http://openoffice.org/2004/office": "ooo",
 "http://openoffice.org/2004/calc": "oooc",
 "http://openoffice.org/2004/writer": "ooow",
 "http://openoffice.org/2005/report": "rpt",
 "http://openoffice.org/2009/office": "officeooo",
 "http://openoffice.org/2009/table": "tableooo",
 "http://openoffice.org/2010/draw": "drawooo",
}

class El:
    __slots__ = ("n", "a", "c")
    def __init__(s, n, a): s.n, s.a, s.c = n, a, []
    def kids(s, *names): return [x for x in s.c if isinstance(x, El) and (not names or x.n in names)]
    def kid(s, name):
        for x in s.c:
            if isinstance(x, El) and x.n == name: return x
        return None
    def text(s): return "".join(x if isinstance(x, str) else x.text() for x in s.c)

class BadXml(Exception): pass

def qname(n):
    if "\x01" not in n: return n
    u, l = n.split("\x01", 1)
    return (NS.get(u) or ("{" + u + "}")) + ":" + l

def parse(data):
    """strict, namespace aware; raises BadXml.  Returns (root, prefixes declared)"""
    p = expat.ParserCreate(namespace_separator="\x01")
    p.buffer_text = True
    p.ordered_attributes = True
    root, stack, decl = [], [], []
    def start(n, at):
        e = El(qname(n), [(qname(at[i]), at[i + 1]) for i in range(0, len(at), 2)])
        (stack[-1].c if stack else root).append(e)
        stack.append(e)
    def end(n): stack.pop()
    def chars(t):
        if stack:
            c = stack[-1].c
            if c and isinstance(c[-1], str): c[-1] += t
            else: c.append(t)
    def nsdecl(pfx, uri): decl.append([pfx or "", uri or ""])
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.StartNamespaceDeclHandler = nsdecl
    try: p.Parse(data, True)
    except expat.ExpatError as e: raise BadXml("not well-formed: %s" % e)
    return root[0], decl

def at(e, k, d=None):
    for n, v in e.a:
        if n == k: return v
    return d
def opt(x): return [] if x is None else [x]
def js(x): return json.dumps(x, ensure_ascii=False, separators=(",", ":"))
def tree(e):
    ch = []
    for c in e.c:
        if isinstance(c, str):
            if c: ch.append(c)
        else: ch.append(tree(c))
    return [e.n, sorted([k, v] for k, v in e.a), ch]
def blank(x): return isinstance(x, str) and not x.strip(" \t\r\n")

def num_hex(s):
    if s is None: return ""
    t = s.strip()
    try: f = float(t)
    except ValueError: return ""
    if "_" in t or "n" in t.lower(): 
        return "nan" if t == "NaN" else ""
    return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]
def rust_float(f):
    """shortest decimal without exponent, as Rust displays it"""
    if f == int(f) and abs(f) < 1e15: return ("-" if str(f).startswith("-") else "") + str(abs(int(f)))
    r = repr(f)
    if "e" in r or "E" in r:
        from decimal import Decimal
        r = format(Decimal(r), "f")
    return r
def norm_len(s):
    if s is None: return ""
    s = s.strip()
    for u in ("cm", "mm", "in", "pt", "pc", "em"):
        if s.endswith(u):
            try: return rust_float(float(s[:-2])) + u
            except ValueError: return "?" + s
    return "?" + s
def dt_parts(s):
    """ISO date[time] -> list of strings as the specification has them, [] if it is none"""
    import re
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)(?:T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?)?", s.strip())
    if not m: return ["?" + s]
    y, mo, d, h, mi, se, f = m.groups()
    return [str(int(y)), mo, d, h or "00", mi or "00", se or "00", ((f or "") + "0" * 9)[:9]]
def boolean(s, d):
    if s is None: return d
    return {"true": True, "false": False}.get(s, d)
def num(s, d):
    if s is None: return d
    try: return int(s)
    except ValueError: return 0

def annotation(e):
    a = dict(e.a)
    name = a.pop("office:name", "")
    disp = boolean(a.pop("office:display", None), False)
    creator, date, text = [], [], []
    for k in e.kids():
        if k.n == "dc:creator": creator = [k.text()]
        elif k.n == "dc:date": date = dt_parts(k.text())
        else: text.append(tree(k))
    return js([name, disp, creator, date, text, sorted([k, v] for k, v in a.items())])
def frame(e):
    title, desc, imgs = [], [], []
    for k in e.kids():
        if k.n == "svg:title": title = [k.text()]
        elif k.n == "svg:desc": desc = [k.text()]
        elif k.n == "draw:image":
            bin_, txt = [], []
            for x in k.kids():
                if x.n == "office:binary-data": bin_ = ["".join(x.text().split())]
                else: txt.append(tree(x))
            imgs.append([sorted([a, b] for a, b in k.a), bin_, txt])
        else: imgs.append(["?", tree(k)])
    return js([title, desc, sorted([a, b] for a, b in e.a), imgs])

def cell(e):
    vt = at(e, "office:value-type", at(e, "calcext:value-type", "")) or ""
    texts = []
    ann, df = [], []
    for k in e.kids():
        if k.n == "office:annotation": ann = [annotation(k)]
        elif k.n == "draw:frame": df.append(frame(k))
        elif k.n in ("text:p", "text:h", "text:list"): texts.append(k)
        else: texts.append(k)
    plain = all(k.n == "text:p" and not k.a and all(isinstance(c, str) for c in k.c) for k in texts)
    if plain: txt = {"k": "text", "v": [k.text() for k in texts] or [""]}
    else: txt = {"k": "xml", "v": [js(tree(k)) for k in texts]}
    val, hexv = "", ""
    if vt in ("float", "percentage", "currency"): hexv = num_hex(at(e, "office:value"))
    elif vt == "boolean": val = at(e, "office:boolean-value", "")
    elif vt == "date": val = at(e, "office:date-value", "")
    elif vt == "time": val = at(e, "office:time-value", "")
    elif vt == "":
        for k in ("office:boolean-value", "office:date-value", "office:time-value", "office:value"): val = val or at(e, k, "")
    sv = at(e, "office:string-value")
    return {"cov": e.n == "table:covered-table-cell", "n": num(at(e, "table:number-columns-repeated"), 1), "vt": vt,
            "val": val, "num": hexv, "cur": opt(at(e, "office:currency")), "sv": [] if sv is None else sv.split("\n"),
            "txt": txt, "f": opt(at(e, "table:formula")), "st": opt(at(e, "table:style-name")),
            "va": opt(at(e, "table:content-validation-name")),
            "sp": [num(at(e, "table:number-rows-spanned"), 1), num(at(e, "table:number-columns-spanned"), 1)],
            "mx": [num(at(e, "table:number-matrix-rows-spanned"), 1), num(at(e, "table:number-matrix-columns-spanned"), 1)],
            "ann": ann, "df": df}

def is_empty_tok(t):
    """nothing but a position (or a covered position)"""
    return (t["vt"] == "" and t["val"] == "" and not t["sv"] and t["txt"] == {"k": "text", "v": [""]} and not t["cur"]
            and not (t["f"] or t["st"] or t["va"] or t["ann"] or t["df"]) and t["sp"] == [1, 1] and t["mx"] == [1, 1])
def merge_empty(l):
    """adjacent empty positions counted as one token: the same positions, fewer tokens"""
    out = []
    for t in l:
        if out and t["n"] > 0 and out[-1]["n"] > 0 and is_empty_tok(t) and is_empty_tok(out[-1]) and t["cov"] == out[-1]["cov"]: out[-1] = dict(out[-1], n=out[-1]["n"] + t["n"])
        else: out.append(t)
    return out
def merge_cols(l):
    out = []
    for t in l:
        if out and t["t"] == "line" and out[-1]["t"] == "line" and t["n"] > 0 and dict(t, n=0) == dict(out[-1], n=0): out[-1] = dict(out[-1], n=out[-1]["n"] + t["n"])
        else: out.append(t)
    return out
def join_headers(l):
    """header elements one right behind the other: the same header columns, fewer tokens"""
    out = []
    for t in l:
        if out and t["t"] == "h+" and out[-1]["t"] == "h-": out.pop()
        else: out.append(t)
    return out
ROWISH = {"table:table-row", "table:table-rows", "table:table-header-rows", "table:table-row-group"}
COLISH = {"table:table-column", "table:table-columns", "table:table-header-columns", "table:table-column-group"}
def lines(e, out, why):
    n = e.n
    if n in ("table:table-row", "table:table-column"):
        row = n == "table:table-row"
        t = {"t": "line", "n": num(at(e, "table:number-rows-repeated" if row else "table:number-columns-repeated"), 1),
             "st": opt(at(e, "table:style-name")), "cs": opt(at(e, "table:default-cell-style-name")),
             "vis": at(e, "table:visibility", "visible")}
        if row:
            t["cells"] = []
            for k in e.c:
                if isinstance(k, str):
                    if not blank(k): why.append("text in row")
                elif k.n in ("table:table-cell", "table:covered-table-cell"): t["cells"].append(cell(k))
                else: why.append("element in row: " + k.n)
            t["cells"] = merge_empty(t["cells"])
        if t["n"] < 1: why.append("repeat count")
        out.append(t)
    elif n in ("table:table-row-group", "table:table-column-group"):
        out.append({"t": "g+", "disp": boolean(at(e, "table:display"), True)})
        kids(e, out, why)
        out.append({"t": "g-"})
    elif n in ("table:table-header-rows", "table:table-header-columns"):
        out.append({"t": "h+"})
        kids(e, out, why)
        out.append({"t": "h-"})
    else: kids(e, out, why)
def kids(e, out, why):
    ok = ROWISH if e.n in ROWISH else COLISH
    for k in e.kids():
        if k.n in ok: lines(k, out, why)
        else: why.append("element %s in %s" % (k.n, e.n))

def table(e, why):
    t = {"name": at(e, "table:name", ""), "st": opt(at(e, "table:style-name")), "disp": boolean(at(e, "table:display"), True),
         "print": boolean(at(e, "table:print"), True), "pr": opt(at(e, "table:print-ranges")), "cols": [], "rows": [], "xt": []}
    seen_row = False
    for k in e.c:
        if isinstance(k, str):
            if not blank(k): why.append("text in table")
            continue
        if k.n in COLISH:
            if seen_row: why.append("column after row")
            lines(k, t["cols"], why)
        elif k.n in ROWISH:
            seen_row = True
            lines(k, t["rows"], why)
        else: t["xt"].append([js(tree(k))])
    if len(t["cols"]) > 300: t["cols"] = merge_cols(join_headers(t["cols"]))
    t["cols"] = merge_cols(t["cols"])
    t["xt"] = [x[0] for x in t["xt"]]
    return t

def all_of(roots, path):
    out = []
    for r in roots:
        for k in r.kids(path): out.append(k)
    return out

def read(data):
    """-> dict(roots={part: El}, zip=..., fmt=...) ; raises BadXml"""
    if data[:2] == b"PK":
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = z.infolist()
        names = [i.filename for i in infos]
        if z.testzip(): raise BadXml("zip crc")
        roots, decl = {}, {}
        for n in ("content.xml", "styles.xml", "meta.xml", "settings.xml", "META-INF/manifest.xml"):
            if n in names: roots[n], decl[n] = parse(z.read(n))
        return {"fmt": "ods", "roots": roots, "decl": decl, "z": z, "infos": infos, "names": names}
    root, decl = parse(data)
    return {"fmt": "fods", "roots": {"flat": root}, "decl": {"flat": decl}, "z": None, "infos": [], "names": []}

def doc_parts(d):
    if d["fmt"] == "fods": return [d["roots"]["flat"]]
    return [d["roots"][n] for n in ("content.xml", "styles.xml", "meta.xml", "settings.xml") if n in d["roots"]]

def tokens(data, facts=None):
    try: d = read(data)
    except BadXml as e: return bad(str(e))
    except zipfile.BadZipFile as e: return bad("bad zip: %s" % e)
    why = []
    parts = doc_parts(d)
    rst, cst = [], []
    for p in parts:
        for sec in p.kids("office:styles", "office:automatic-styles"):
            for s in sec.kids("style:style"):
                fam = at(s, "style:family")
                if fam == "table-row":
                    pr = s.kid("style:table-row-properties")
                    rst.append([at(s, "style:name", ""), pr is not None and at(pr, "style:use-optimal-row-height") == "true",
                                norm_len(at(pr, "style:row-height")) if pr is not None else ""])
                elif fam == "table-column":
                    pr = s.kid("style:table-column-properties")
                    cst.append([at(s, "style:name", ""), pr is not None and at(pr, "style:use-optimal-column-width") == "true",
                                norm_len(at(pr, "style:column-width")) if pr is not None else ""])
    tabs = []
    bodies = [b for p in parts for b in p.kids("office:body")]
    if len(bodies) != 1: why.append("%d bodies" % len(bodies))
    for b in bodies:
        for sp in b.kids("office:spreadsheet"):
            for k in sp.kids("table:table"): tabs.append(table(k, why))
    doc = {"ok": not why, "why": "; ".join(why[:3]), "tables": tabs, "rst": rst, "cst": cst, "facts": [], "items": [], "fmt": d["fmt"], "zip": package(d)}
    if facts: doc["facts"], doc["items"] = facts(d, why)
    doc["ok"] = not why
    doc["why"] = "; ".join(why[:3])
    return doc

def bad(w): return {"ok": False, "why": w, "tables": [], "rst": [], "cst": [], "facts": [], "items": [], "fmt": "", "zip": []}
def package(d):
    if d["fmt"] != "ods": return []
    i0 = d["infos"][0] if d["infos"] else None
    man = d["roots"].get("META-INF/manifest.xml")
    listed = [at(k, "manifest:full-path", "") for k in man.kids("manifest:file-entry")] if man else []
    return [{"names": d["names"], "folders": [n for n in d["names"] if n.endswith("/") or n.startswith("META-INF/")], "plain": i0 is not None and i0.compress_type == zipfile.ZIP_STORED and i0.header_offset == 0 and not i0.extra,
             "mime": d["z"].read("mimetype").decode("utf-8", "replace") if "mimetype" in d["names"] else "",
             "listed": [n for n in listed], "dirs": [n for n in listed if n.endswith("/")]}]

if __name__ == "__main__":
    import sys
    print(json.dumps(tokens(open(sys.argv[1], "rb").read()), indent=1, ensure_ascii=False))
