"""Facts of workbooks (styles, formats, fonts, pages, validations, files, metadata, settings, scripts): random ones, and
their XML form as other applications may write it."""
from gen import js, hexf
from odsmk import xml, aesc, tesc
import struct
NASTY = ["a&b", "<x>", "a<b>c", "\"q\"", "it's", "&amp;", "&lt;b&gt;", "&#65;", "&unknown;", "]]>", "<![CDATA[x]]>", "<!--c-->", "a;b", "ü ö ß", "日本語", "😀 astral", "a\u00a0b", "\u200bzw", "x=\"1\"", "100%", "a\\b", "\\n", "{x}", "tab here",
         "ends &", "& starts", "'", "\"", "<", ">", "&", "a'b\"c<d>&e", "\ufffd", "e\u0301", "\U0010ffff", "--", "?>", "a  b" ]
LINES = ["a\nb", "a\tb", " lead", "trail ", "\nx", "a\r\nb"]
NAMES = ["s1", "s2", "s3", "Default", "N0", "a b", "x-y", "n_1"]
class Mk:
    def __init__(s, g, nasty=False): s.g, s.nasty = g, nasty
    def w(s):
        """text of an element"""
        if s.nasty and s.g.p(0.75): return s.g.pick(NASTY) if s.g.p(0.8) else "".join(s.g.pick(["&", "<", ">", "'", "\"", "a", ";", "#", "ü", "😀", "]", "x"]) for _ in range(s.g.r.randint(1, 8)))
        return s.g.word()
    def a(s):
        """text of an attribute: white space is kept as well"""
        if s.nasty and s.g.p(0.25): return s.g.pick(LINES)
        return s.w()
    def t(s):
        """text of a format: blanks matter"""
        return s.g.pick([" ", "  ", " - ", "- ", " -", "\u00a0", ". "]) if s.g.p(0.35) else s.w()
    def name(s): return s.g.pick(NAMES) if not s.nasty or s.g.p(0.4) else s.w()
    def some(s, pool, n=4):
        k = s.g.r.sample(pool, s.g.r.randint(0, min(n, len(pool))))
        return sorted([[a, v if isinstance(v, str) else s.a() if v is None else s.g.pick(v)] for a, v in k])

    # ---- styles ----
    P = {"style:table-properties": [("style:width", "10cm"), ("table:align", ["left", "margins"]), ("fo:margin-left", "1cm"), ("table:display", ["true", "false"]), ("style:writing-mode", ["lr-tb", "rl-tb"]), ("fo:break-before", "page"), ("style:page-number", ["1", "auto"]), ("tableooo:tab-color", "#ff0000")],
         "style:table-row-properties": [("fo:background-color", ["#ffffff", "transparent"]), ("fo:break-before", ["auto", "page"]), ("fo:keep-together", ["auto", "always"]), ("style:min-row-height", "3mm")],
         "style:table-column-properties": [("fo:break-before", ["auto", "page"]), ("style:rel-column-width", "3*"), ("fo:break-after", "column")],
         "style:table-cell-properties": [("fo:background-color", ["#ff00ff", "transparent"]), ("fo:border", ["none", "0.06pt solid #000000"]), ("fo:padding", "0.71mm"), ("style:vertical-align", ["top", "automatic"]), ("fo:wrap-option", ["wrap", "no-wrap"]), ("style:rotation-angle", ["90", "45.5"]), ("style:cell-protect", ["none", "protected formula-hidden"]), ("style:decimal-places", "2"), ("style:repeat-content", "false"), ("style:shrink-to-fit", "true")],
         "style:paragraph-properties": [("fo:text-align", ["start", "center"]), ("fo:margin-left", "2cm"), ("fo:line-height", ["100%", "1cm"]), ("style:writing-mode", "page"), ("fo:text-indent", "-1cm"), ("fo:hyphenation-ladder-count", "no-limit"), ("style:register-true", "true")],
         "style:text-properties": [("fo:font-size", ["10pt", "120%"]), ("fo:font-weight", ["bold", "400"]), ("fo:color", "#123456"), ("style:font-name", None), ("fo:language", "en"), ("fo:country", "US"), ("style:text-underline-style", ["solid", "none"]), ("fo:text-shadow", "1pt 1pt"), ("style:text-position", "super 58%"), ("fo:font-family", None)],
         "style:ruby-properties": [("style:ruby-align", ["left", "center"]), ("style:ruby-position", "above")],
         "style:graphic-properties": [("draw:stroke", ["none", "solid"]), ("draw:fill", ["none", "solid"]), ("svg:stroke-color", "#00ff00"), ("draw:auto-grow-height", "true"), ("fo:min-height", "1cm"), ("draw:textarea-horizontal-align", "center")]}
    FAMS = {"table": ["style:table-properties"], "row": ["style:table-row-properties"], "col": ["style:table-column-properties"],
            "cell": ["style:paragraph-properties", "style:table-cell-properties", "style:text-properties"], "paragraph": ["style:paragraph-properties", "style:text-properties"],
            "text": ["style:text-properties"], "ruby": ["style:ruby-properties"], "graphic": ["style:graphic-properties", "style:paragraph-properties", "style:text-properties"]}
    SA = [("style:display-name", None), ("style:parent-style-name", ["Default", "s1", "P0"]), ("style:class", ["text", "extra"]), ("style:auto-update", "true")]
    def cond(s):
        g = s.g
        op = g.pick(["=", "!=", "<", ">", "<=", ">="])
        t = g.pick(["cc", "ct", "len", "f"])
        if t == "cc": return "cell-content()" + op + str(g.pick([0, 1, -5, 1000000]))
        if t == "ct": return "cell-content()" + op + '"' + s.w().replace('"', '""') + '"'
        if t == "len": return "cell-content-text-length()" + op + str(g.pick([0, 3, 77]))
        return "is-true-formula(" + g.pick(["[.A1]>3", "ISERROR([.A1])", "1=1"]) + ")"
    def style(s, fam, u=None):
        g = s.g
        u = u or g.pick(["n", "n", "a", "a", "a"])
        at = s.some(s.SA + ([("style:data-style-name", ["N0", "s1"])] if fam == "cell" else []) + ([("style:master-page-name", ["Default", "m1"])] if fam == "table" else []) + ([("style:next-style-name", "s1"), ("style:default-outline-level", "2")] if fam == "paragraph" else []), 3)
        if u == "d": at = []
        props = []
        for el in s.FAMS[fam]:
            a = s.some(s.P[el]) if g.p(0.7) else []
            ch = []
            if fam == "paragraph" and el == "style:paragraph-properties" and g.p(0.4):
                ch = [["style:tab-stop", s.some([("style:position", ["1cm", "2cm"]), ("style:type", ["left", "center", "char"]), ("style:leader-style", "dotted"), ("style:leader-text", "."), ("style:char", ",")]), []] for _ in range(g.pick([1, 2, 3]))]
            if a or ch: props.append([el, a, ch])
        maps = [[s.cond(), g.pick(["s1", "s2", "a b"]), g.pick([[], [".A1"], ["Sheet1.B2"]])] for _ in range(g.cnt([0, 0, 0, 1, 2, 3]))] if fam == "cell" and u != "d" else []
        x = "" if fam not in ("row", "col") else js(sorted(s.some([("style:row-height", ["1cm", "5mm"]), ("style:use-optimal-row-height", ["true", "false"])] if fam == "row" else [("style:column-width", ["2cm", "3cm"]), ("style:use-optimal-column-width", ["true", "false"])], 2)))
        return {"k": "st:" + fam, "n": s.name(), "u": u, "o": g.pick(["c", "s"]), "t": js([at, props, maps]), "x": x}

    # ---- formats ----
    NA = [("number:language", ["en", "de"]), ("number:country", ["US", "AT"]), ("number:title", None), ("number:script", "Latn"), ("number:rfc-language-tag", "en-US"), ("style:display-name", None), ("style:volatile", "true"), ("number:transliteration-format", "1"), ("number:transliteration-language", "ja")]
    def part(s, n):
        g = s.g
        a, c = [], []
        if n in ("number:text", "number:fill-character"): c = [s.t()]
        elif n == "number:currency-symbol": a, c = s.some([("number:language", "de"), ("number:country", "AT")]), [g.pick(["€", "$", "EUR"]) if not s.nasty else s.w()]
        elif n == "number:number":
            a = s.some([("number:min-integer-digits", ["0", "1", "3"]), ("number:decimal-places", ["0", "2"]), ("number:min-decimal-places", ["0", "2"]), ("number:grouping", ["true", "false"]), ("number:display-factor", ["1", "1000"]), ("number:decimal-replacement", ["", "-", "--"])])
            if g.p(0.25): c = [["number:embedded-text", [["number:position", g.pick(["0", "2", "3"])]], [s.t()]]]
        elif n == "number:scientific-number": a = s.some([("number:min-exponent-digits", "2"), ("number:decimal-places", "3"), ("number:min-integer-digits", "1"), ("number:exponent-interval", "3"), ("number:forced-exponent-sign", "true"), ("number:grouping", "true"), ("number:min-decimal-places", "1")])
        elif n == "number:fraction": a = s.some([("number:denominator-value", "16"), ("number:max-denominator-value", "99"), ("number:min-denominator-digits", "2"), ("number:min-numerator-digits", "1"), ("number:min-integer-digits", "0"), ("number:grouping", "false"), ("number:max-numerator-digits", "3")])
        elif n == "number:seconds": a = s.some([("number:style", ["long", "short"]), ("number:decimal-places", ["0", "3"])])
        elif n == "number:month": a = s.some([("number:style", ["long", "short"]), ("number:textual", ["true", "false"]), ("number:possessive-form", "true"), ("number:calendar", "gregorian")])
        elif n in ("number:hours", "number:minutes"): a = s.some([("number:style", ["long", "short"])])
        elif n in ("number:day", "number:year", "number:era", "number:day-of-week", "number:quarter"): a = s.some([("number:style", ["long", "short"]), ("number:calendar", "gregorian")])
        elif n == "number:week-of-year": a = s.some([("number:calendar", "gregorian")])
        return [n, a, c]
    PK = {"boolean": (["number:boolean"], 1), "number": (["number:number", "number:scientific-number", "number:fraction"], 1), "percentage": (["number:number"], 1), "currency": (["number:number", "number:currency-symbol"], 2),
          "text": (["number:text-content", "number:text-content"], 2), "date": (["number:day", "number:month", "number:year", "number:era", "number:day-of-week", "number:week-of-year", "number:quarter", "number:hours", "number:am-pm", "number:minutes", "number:seconds"], 5),
          "time": (["number:hours", "number:am-pm", "number:minutes", "number:seconds"], 3)}
    def fmt(s, k, u=None):
        g = s.g
        u = u or g.pick(["n", "a"])
        pool, n = s.PK[k]
        at = s.some(s.NA + ([("number:automatic-order", "true"), ("number:format-source", "language")] if k in ("date", "currency") else [("number:truncate-on-overflow", "false")] if k == "time" else []), 4)
        tp = [["style:text-properties", s.some([("fo:color", "#ff0000"), ("fo:font-weight", "bold")], 2), []]]
        tp = [x for x in tp if x[1] and g.p(0.5)]
        parts = []
        for i in range(g.r.randint(0, n)):
            if g.p(0.4): parts.append(s.part("number:text"))
            parts.append(s.part(g.pick(pool)))
        if g.p(0.3): parts.append(s.part(g.pick(["number:text", "number:fill-character"])))
        maps = [["style:map", [["style:apply-style-name", g.pick(["N0", "s1"])], ["style:condition", "value()" + g.pick(["=", "!=", "<", ">", "<=", ">="]) + g.pick(["0", "1", "-7", '"a""b"'])]], []] for _ in range(g.pick([0, 0, 0, 1, 2]))]
        return {"k": "nf:" + k, "n": s.name(), "u": u, "o": g.pick(["c", "s"]), "t": js([at, tp + parts + maps]), "x": ""}
    def font(s):
        return {"k": "font", "n": s.name(), "u": "", "o": s.g.pick(["c", "s"]), "t": js(s.some([("svg:font-family", ["Arial", "'DejaVu Sans'", None]) if False else ("svg:font-family", ["Arial", "'DejaVu Sans'", "\"Q\""]), ("style:font-family-generic", ["swiss", "system"]), ("style:font-pitch", ["variable", "fixed"]), ("style:font-adornments", None), ("style:font-charset", "x-symbol"), ("svg:font-weight", "bold")], 5)), "x": ""}
    # ---- pages ----
    def page(s):
        g = s.g
        p = s.some([("fo:page-width", "21cm"), ("fo:page-height", "29.7cm"), ("fo:margin", "1cm"), ("fo:margin-top", "2cm"), ("style:print-orientation", ["portrait", "landscape"]), ("style:print", "objects charts"), ("style:scale-to", "50%"), ("style:scale-to-X", "1"), ("style:table-centering", "both"), ("style:first-page-number", ["1", "continue"]), ("fo:background-color", "#ffffff")], 6)
        hf = lambda: s.some([("fo:min-height", "1cm"), ("fo:margin", "0cm"), ("fo:margin-bottom", "2.5mm"), ("fo:border", "none"), ("svg:height", "2cm"), ("style:dynamic-spacing", "true")]) if g.p(0.7) else []
        return {"k": "page", "n": s.name(), "u": "", "o": "", "t": js([g.pick([[], [], ["all"], ["left"], ["mirrored"], ["right"]]), p, hf(), hf()]), "x": ""}
    def para(s, d=2):
        g = s.g
        ch = []
        for _ in range(g.pick([0, 1, 1, 2, 3])):
            t = g.pick(["t", "t", "span", "f"]) if d else "t"
            if t == "t":
                if ch and isinstance(ch[-1], str): continue
                ch.append(s.w())
            elif t == "span": ch.append(["text:span", s.some([("text:style-name", ["T1", "MT1"])]), [s.w()]])
            else: ch.append([g.pick(["text:page-number", "text:sheet-name", "text:date", "text:page-count"]), s.some([("style:data-style-name", "N2"), ("text:date-value", "2020-01-01")]), [g.pick(["1", "???"])] if g.p(0.7) else []])
        return ["text:p", [["text:style-name", g.pick(["P1", "MP1"])]] if g.p(0.3) else [], ch]
    def hf(s, special=False):
        g = s.g
        t = g.pick(["none", "off", "reg", "reg", "par", "par"])
        if t == "none": return [not special, [], [], [], []]
        if t == "off": v = [False, [], [], [], [s.para()]] if g.p(0.6) else [False, [], [], [], []]
        elif t == "reg": v = [g.p(0.8)] + [[s.para() for _ in range(g.cnt([0, 1, 1, 2]))] for _ in range(3)] + [[]]
        else: v = [g.p(0.8), [], [], [], [s.para() for _ in range(g.cnt([1, 1, 2]))]]
        if special and not any(v[1:]): v[0] = False
        return v
    def master(s):
        g = s.g
        h, f = s.hf(), s.hf()
        return {"k": "master", "n": s.name(), "u": "", "o": "", "t": js([s.a() if g.p(0.4) else "", g.pick([[], ["s1"], ["Mpm1"]]), g.pick([[], [], ["Default"]]),
                [h, s.hf(True), s.hf(True), f, s.hf(True), s.hf(True)]]), "x": ""}
    # ---- validations ----
    def msg_text(s): return [["text:p", [], [s.w()] if s.g.p(0.9) else []] for _ in range(s.g.cnt([0, 1, 1, 2, 3]))]
    def valid(s, c=None, base=None):
        g = s.g
        er = g.pick([[], [[g.p(0.6), g.pick(["stop", "warning", "information"]), [s.a()] if g.p(0.6) else [], s.msg_text()]]])
        he = g.pick([[], [[g.p(0.6), [s.a()] if g.p(0.6) else [], s.msg_text()]]])
        return {"k": "valid", "n": s.name() if s.nasty else g.pick(["val1", "val2", "v 3"]), "u": "", "o": "", "t": js([s.cond() if c is None else c, base or g.pick([".A1", "Sheet1.B2", "'a b'.C3"]), g.p(0.5), g.pick(["none", "unsorted", "sort-ascending"]), er, he]), "x": ""}
    def file(s):
        g = s.g
        b = bytes(g.r.getrandbits(8) for _ in range(g.size([0, 1, 5, 70])))
        n = g.pick(["Pictures/a.png", "Pictures/b.jpg", "Object 1/content.xml", "Object 1/styles.xml", "Basic/Standard/M1.xml", "x.bin", "Thumbnails/thumbnail.png", "Configurations2/accelerator/current.xml"])
        return {"k": "file", "n": n, "u": "", "o": "", "t": js([g.pick(["image/png", "", "text/xml", "application/x"]), g.pick([[], [], ["1.3"]]), b.hex()]), "x": ""}
    def listener(s):
        g = s.g
        return {"k": "listener", "n": g.pick(["dom:load", "office:print", "dom:unload", "office:x"]), "u": "", "o": "", "t": js([g.pick(["ooo:script", "ooo:Basic"]), s.a() if g.p(0.3) else "", g.pick(["onLoad", "onRequest"]), g.pick(["vnd.sun.star.script:S.M.f?language=Basic&location=document", "x"]), g.pick(["simple"])]), "x": ""}
    def script(s):
        g = s.g
        t = lambda: ["ooo:libraries", [], [["ooo:library-embedded", [["ooo:name", s.a()]], [["ooo:module", [], [s.w()]]]]]]
        return js([[g.pick(["ooo:Basic", "x"]), g.pick([[t()], [s.w()], [t(), t()], []])] for _ in range(g.cnt([1, 1, 2]))])
    # ---- single fields ----
    ACT, SHOW, LT = ["onLoad", "onRequest"], ["new", "replace"], ["simple", "extended", "locator", "arc", "resource", "title", "none"]
    def meta(s):
        g = s.g
        n = g.pick(["title", "description", "subject", "keyword", "initial_creator", "creator", "printed_by", "language", "creation_date", "date", "print_date", "editing_cycles", "editing_duration", "template", "auto_reload", "hyperlink", "objects", "user", "user"])
        o = lambda x: [x] if g.p(0.6) else []
        if n in ("creation_date", "date", "print_date"): t = g.dt()
        elif n == "editing_cycles": t = str(g.pick([1, 2, 77, 4294967295]))
        elif n == "editing_duration":
            t = g.dur(); t[0] = "+"
            if t == ["+", "0", "00", "00", "000000000"]: t[3] = "05"
        elif n == "template": t = [o(g.dt()), o(g.pick(s.ACT)), o(s.a()), o(s.a()), o("simple")]
        elif n == "auto_reload": t = [o(g.dur()), o(g.pick(s.ACT)), o(s.a()), o(g.pick(s.SHOW)), o("simple")]
        elif n == "hyperlink": t = [o(g.pick(["_self", "_blank", s.a()])), o(g.pick(s.SHOW))]
        elif n == "objects": t = [str(g.pick([0, 1, 5])), str(g.pick([1, 7]))]
        elif n == "user":
            t = []
            for i in range(g.cnt([1, 1, 2, 3])):
                k = g.pick(["str", "num", "bool", "dt", "dur"])
                v = {"str": lambda: s.w(), "num": lambda: hexf(g.num()), "bool": lambda: g.pick(["true", "false"]), "dt": g.dt, "dur": g.dur}[k]()
                t.append([s.a() if s.nasty else "f%d" % i, [k, v]])
        else: t = s.w()
        if n in ("template", "auto_reload", "hyperlink") and not any(t): t[-1] = [g.pick(["simple"] if n != "hyperlink" else s.SHOW)]
        return {"k": "meta", "n": n, "t": js(t)}
    def cfg(s, names):
        n = s.g.pick(["active_table", "show_grid", "show_page_breaks", "has_sheet_tabs"])
        return {"k": "cfg", "n": n, "t": s.g.pick(names) if n == "active_table" else s.g.pick(["true", "false"])}
    KINDS = ["st:" + f for f in FAMS] + ["nf:" + k for k in PK] + ["font", "page", "master", "valid", "file", "listener"]
    def fact(s, k, u=None):
        if k.startswith("st:"): return s.style(k[3:], u)
        if k.startswith("nf:"): return s.fmt(k[3:], u)
        return {"font": s.font, "page": s.page, "master": s.master, "valid": s.valid, "file": s.file, "listener": s.listener}[k]()

# ------------------------------------------------------------------ XML form
import json
FAMN = {"st:table": "table", "st:row": "table-row", "st:col": "table-column", "st:cell": "table-cell", "st:paragraph": "paragraph", "st:text": "text", "st:ruby": "ruby", "st:graphic": "graphic"}
NFN = {"nf:boolean": "number:boolean-style", "nf:number": "number:number-style", "nf:percentage": "number:percentage-style", "nf:currency": "number:currency-style", "nf:text": "number:text-style", "nf:date": "number:date-style", "nf:time": "number:time-style"}
def shuf(g, a):
    a = list(a)
    g.r.shuffle(a)
    return a
def tree_of(g, f):
    """XML tree of a style, format, font, page layout, master page, validation"""
    t = json.loads(f["t"])
    k = f["k"]
    if k in FAMN:
        x = json.loads(f["x"] or "[]")
        ch, seen = [], False
        for el, a, c in t[1]:
            a = a + (x if el in ("style:table-row-properties", "style:table-column-properties") else [])
            seen |= el in ("style:table-row-properties", "style:table-column-properties")
            ch.append([el, shuf(g, a), [["style:tab-stops", [], c]] if c else []])
        if x and not seen: ch.append([{"st:row": "style:table-row-properties", "st:col": "style:table-column-properties"}[k], x, []])
        for c, st, b in t[2]: ch.append(["style:map", [["style:condition", c], ["style:apply-style-name", st]] + [["style:base-cell-address", y] for y in b], []])
        d = f["u"] == "d"
        return ["style:default-style" if d else "style:style", shuf(g, ([] if d else [["style:name", f["n"]]]) + [["style:family", FAMN[k]]] + t[0]), ch]
    if k in NFN: return [NFN[k], shuf(g, [["style:name", f["n"]]] + t[0]), t[1]]
    if k == "font": return ["style:font-face", shuf(g, [["style:name", f["n"]]] + t), []]
    if k == "page":
        ch = []
        if t[1] or g.p(0.5): ch.append(["style:page-layout-properties", shuf(g, t[1]), []])
        for el, a in (("style:header-style", t[2]), ("style:footer-style", t[3])):
            if a or g.p(0.5): ch.append([el, [], [["style:header-footer-properties", shuf(g, a), []]] if a or g.p(0.5) else []])
        return ["style:page-layout", [["style:name", f["n"]]] + [["style:page-usage", y] for y in t[0]], ch]
    if k == "master":
        ch = []
        for el, (d, l, c, r, x) in zip(["style:header", "style:header-first", "style:header-left", "style:footer", "style:footer-first", "style:footer-left"], t[3]):
            some = l or c or r or x
            if not some and el[-5:] in ("first", "-left") and g.p(0.7): continue
            if not some and not d and g.p(0.5) and el in ("style:header", "style:footer"): continue     # absent: not shown
            inner = [[n, [], y] for n, y in (("style:region-left", l), ("style:region-center", c), ("style:region-right", r)) if y or (not x and g.p(0.2))] + x
            ch.append([el, [["style:display", "true" if d else "false"]] if not d or g.p(0.3) else [], inner])
        # order of the standard: header, footer, then special ones
        return ["style:master-page", shuf(g, [["style:name", f["n"]]] + ([["style:display-name", t[0]]] if t[0] else []) + [["style:page-layout-name", y] for y in t[1]] + [["style:next-style-name", y] for y in t[2]]), ch]
    if k == "valid":
        c, b, ae, dl, er, he = t
        a = [["table:name", f["n"]]]
        if c: a.append(["table:condition", g.pick(["of:", ""]) + c])
        if b != ".A1" or g.p(0.5): a.append(["table:base-cell-address", b])
        if not ae or g.p(0.5): a.append(["table:allow-empty-cell", "true" if ae else "false"])
        if dl != "unsorted" or g.p(0.5): a.append(["table:display-list", dl])
        ch = []
        for m in he: ch.append(["table:help-message", ([["table:display", "true" if m[0] else "false"]] if not m[0] or g.p(0.5) else []) + [["table:title", y] for y in m[1]], m[2]])
        for m in er: ch.append(["table:error-message", ([["table:display", "true" if m[0] else "false"]] if not m[0] or g.p(0.5) else []) + ([["table:message-type", m[1]]] if m[1] != "stop" or g.p(0.5) else []) + [["table:title", y] for y in m[2]], m[3]])
        return ["table:content-validation", shuf(g, a), ch]
    raise KeyError(k)
def flo(h): return struct.unpack(">d", bytes.fromhex(h))[0]
def dt_text(g, a):
    fr = a[6].rstrip("0")
    if a[3:] == ["00", "00", "00", "000000000"] and g.p(0.3): return "%s-%s-%s" % (a[0].zfill(4), a[1], a[2])
    return "%s-%s-%sT%s:%s:%s" % (a[0].zfill(4), a[1], a[2], a[3], a[4], a[5]) + ("." + fr if fr else "")
def dur_text(g, a):
    fr = a[4].rstrip("0")
    h = int(a[1])
    return ("-" if a[0] == "-" else "") + g.pick(["PT%sH%sM%s" % (a[1], a[2], a[3]), "PT%dH%dM%d" % (h, int(a[2]), int(a[3])), "P%dDT%dH%dM%d" % (h // 24, h % 24, int(a[2]), int(a[3]))]) + ("." + fr if fr else "") + "S"
MEL = {"title": "dc:title", "description": "dc:description", "subject": "dc:subject", "keyword": "meta:keyword", "initial_creator": "meta:initial-creator", "creator": "dc:creator", "printed_by": "meta:printed-by", "language": "dc:language", "generator": "meta:generator",
       "creation_date": "meta:creation-date", "date": "dc:date", "print_date": "meta:print-date", "editing_cycles": "meta:editing-cycles", "editing_duration": "meta:editing-duration"}
def meta_trees(g, f):
    n, t = f["n"], json.loads(f["t"])
    at = lambda l: [[a, fn(v[0])] for a, v, fn in l if v]
    i = lambda x: x
    if n in ("creation_date", "date", "print_date"): return [[MEL[n], [], [dt_text(g, t)]]]
    if n == "editing_duration": return [[MEL[n], [], [dur_text(g, t)]]]
    if n == "template": return [["meta:template", at([("meta:date", t[0], lambda x: dt_text(g, x)), ("xlink:actuate", t[1], i), ("xlink:href", t[2], i), ("xlink:title", t[3], i), ("xlink:type", t[4], i)]), []]]
    if n == "auto_reload": return [["meta:auto-reload", at([("meta:delay", t[0], lambda x: dur_text(g, x)), ("xlink:actuate", t[1], i), ("xlink:href", t[2], i), ("xlink:show", t[3], i), ("xlink:type", t[4], i)]), []]]
    if n == "hyperlink": return [["meta:hyperlink-behaviour", at([("office:target-frame-name", t[0], i), ("xlink:show", t[1], i)]), []]]
    if n == "objects": return [["meta:document-statistic", [["meta:object-count", t[0]], ["meta:ole-object-count", t[1]], ["meta:table-count", "3"], ["meta:cell-count", "17"]], []]]
    if n == "user":
        out = []
        for nm, (k, v) in t:
            vt = {"str": "string", "num": "float", "bool": "boolean", "dt": "date", "dur": "time"}[k]
            x = {"str": lambda: v, "num": lambda: repr(flo(v)), "bool": lambda: v, "dt": lambda: dt_text(g, v), "dur": lambda: dur_text(g, v)}[k]()
            out.append(["meta:user-defined", [["meta:name", nm]] + ([["meta:value-type", vt]] if vt != "string" or g.p(0.5) else []), [x] if x else []])
        return out
    return [[MEL[n], [], [t]]]
# settings: tree of [kind, name, value | children]
def cfg_tree(t):
    k, n, v = t
    if k == "item": return ["config:config-item", [["config:name", n], ["config:type", v[0]]], [v[1]] if v[1] else []]
    return ["config:config-item-" + k, [["config:name", n]] if n is not None else [], [cfg_tree(c) for c in v]]
