"""Programs about text in every place (P06) and about repeated saving (P21)."""
import json
from gen import *
import odsmk
from odsmk import xml, aesc, tesc
from regmk import Mk, NASTY, LINES, cfg_tree
from profiles import *
from profiles_io import rich_v, rich_ann, rich_frame
from profiles_reg import *

# ------------------------------------------------------------------ text in every place (P06)
ODD = ["\u00e9", "\u0085", "\u2028", "\ufeff", "\U0001f600", "\u00a0"]
def items(chars, attr):
    out, codes = [], []
    for c in chars:
        forms = ["&#%d;" % ord(c), "&#x%x;" % ord(c)]
        if c in odsmk.NAMED_ENT: forms.append(odsmk.NAMED_ENT[c])
        elif c != "\r" and not (attr and c in "\t\n"): forms.append(c)
        if attr and c in ">'": forms.append(c)
        if not attr and c in "'\"": forms.append(c)
        if not attr and c != "\r": forms.append("<![CDATA[" + c + "]]>")
        for f in forms:
            out.append({"c": c, "raw": f})
            if f[0] == "&": codes.append([f[1:-1], c])
    return out, codes
class Texts:
    """all spelled texts over an alphabet; mk(list of (text, spelling)) gives the program for a batch"""
    module = "Escape"
    def __init__(s, name, chars, depth, attr, batch, mk, sample=None):
        s.name, s.depth, s.attr, s.batch, s.mk, s.sample = name, depth, attr, batch, mk, sample
        s.ops, s.codes = items(chars, attr)
    def data(s): return {"items": s.ops, "codes": s.codes, "depth": s.depth, "attr": s.attr}
    def cases(s, hists):
        l = [("".join(s.ops[i - 1]["c"] for i in h), "".join(s.ops[i - 1]["raw"] for i in h)) for h in hists]
        if s.mk.unspelled: l = sorted({(c, c) for c, _ in l})
        return [("texts %d.." % i, s.mk(l[i:i + s.batch], i // s.batch)) for i in range(0, len(l), s.batch)]
def at(i, w=6): return {"b": 0, "s": 0, "r": i // w, "c": i % w}
def fact(k, n, t, u="", o="", x=""): return {"k": k, "n": n, "u": u, "o": o, "t": js(t), "x": x, "b": 0}
PLACES = {
    "text": lambda i, x: [dict(at(i), op="set_value", v={"k": "text", "v": [x]})],
    "lines": lambda i, x: [dict(at(i), op="set_value", v={"k": "text", "v": ["a", x, "", x]})],
    "xml": lambda i, x: [dict(at(i), op="set_value", v={"k": "xml", "v": [js(["text:p", [["text:style-name", x]], [x, ["text:span", [["text:style-name", x]], [x]], x]])]})],
    "formula": lambda i, x: [dict(at(i), op="set_formula", f=x)],
    "currency": lambda i, x: [dict(at(i), op="set_value", v={"k": "cur", "v": [hexf(1.5), x]})],
    "cellstyle": lambda i, x: [dict(at(i), op="set_styled_value", v=N(1.0), st=x)],
    "validation": lambda i, x: [dict(at(i), op="set_value", v=N(1.0)), dict(at(i), op="set_validation", va=x)],
    "ann": lambda i, x: [dict(at(i), op="set_ann", x=js([x, True, [x], [], [["text:p", [["text:style-name", x]], [x]]], [["draw:style-name", x]]]))],
    "frame": lambda i, x: [dict(at(i), op="add_frame", x=js([[x], [x], [["draw:name", x]], [[[["xlink:href", x]], [], [["text:p", [], [x]]]]]]))],
    "sheet": lambda i, x: [{"op": "push", "b": 0, "x": x}],
    "valid": lambda i, x: [dict(fact("valid", x, ["cell-content()=\"" + x.replace('"', '""') + "\"", ".A1", True, "none", [[True, "stop", [x], [["text:p", [], [x]]]]], [[True, [x], [["text:p", [], [x]]]]]]), op="reg_put")],
    "font": lambda i, x: [dict(fact("font", x, [["style:font-adornments", x], ["svg:font-family", x]], o="c"), op="reg_put")],
    "style": lambda i, x: [dict(fact("st:cell", x, [[["style:display-name", x], ["style:parent-style-name", x]], [["style:text-properties", [["fo:font-family", x]], []]], [["cell-content()=\"" + x.replace('"', '""') + "\"", x, []]]], u="a", o="c"), op="reg_put")],
    "format": lambda i, x: [dict(fact("nf:number", x, [[["number:title", x]], [["number:text", [], [x]], ["number:number", [], []], ["number:fill-character", [], [x]]]], u="n", o="s"), op="reg_put")],
    "curfmt": lambda i, x: [dict(fact("nf:currency", "c%d" % i, [[], [["number:currency-symbol", [], [x]], ["number:number", [["number:decimal-replacement", x]], []]]], u="n", o="s"), op="reg_put")],
    "master": lambda i, x: [dict(fact("master", x, [x, [], [], [[True, [["text:p", [], [x]]], [], [], []]] + [[False, [], [], [], []]] * 2 + [[True, [], [], [], [["text:p", [], [x, ["text:span", [], [x]]]]]]] + [[False, [], [], [], []]] * 2]), op="reg_put")],
    "meta": lambda i, x: [{"op": "set_field", "b": 0, "k": "meta", "n": ["title", "description", "subject", "keyword", "initial_creator", "creator", "printed_by", "language"][i % 8], "t": js(x)}],
    "user": lambda i, x: [],
    "listener": lambda i, x: [dict(fact("listener", x, [x, x, "onLoad", x, "simple"]), op="reg_put")],
    "script": lambda i, x: [],
    "active": lambda i, x: [],
}
def place_case(place):
    """one batch of texts in one place of the document model: saved, read independently, read back, saved again"""
    def mk(l, k):
        g = G(k * 31 + len(place))
        texts = [c for c, _ in l]
        ops = [{"op": "new", "b": 0}]
        if place != "sheet": ops.append({"op": "push", "b": 0, "x": "S"})
        for i, x in enumerate(texts): ops += PLACES[place](i, x)
        if place == "user": ops.append({"op": "set_field", "b": 0, "k": "meta", "n": "user", "t": js([[x, ["str", x]] for x in texts])})
        if place == "script": ops.append({"op": "set_field", "b": 0, "k": "script", "n": "", "t": js([[x, [x, ["ooo:e", [["ooo:a", x]], [x]]]] for x in texts])})
        ops.append(q_book(0, [0, 1, 2], [0, 1, 2]))
        for i, fmt in enumerate(("ods", "fods")):
            cyc(g, 0, "f%d" % i, 1 + 2 * i, ops, [0, 1, 2], [0, 1, 2], fmt)
            if place != "sheet" or g.p(0.3):
                cyc(g, 1 + 2 * i, "g%d" % i, 2 + 2 * i, ops, [0, 1, 2], [0, 1, 2], ["fods", "ods"][i])
                ops.append({"op": "same", "b": 1 + 2 * i, "b2": 2 + 2 * i})
        return {"ops": ops}
    mk.unspelled = True
    return mk
class Places(Texts):
    """every text in every place"""
    def __init__(s, name, chars, depth, batch, places, extra=(), sample=None):
        Texts.__init__(s, name, chars, depth, False, batch, place_case("text"), sample)
        s.ops = [{"c": c, "raw": odsmk.NAMED_ENT.get(c, "&#13;" if c == "\r" else c)} for c in chars]
        s.codes = [[o["raw"][1:-1], o["c"]] for o in s.ops if o["raw"][0] == "&"]
        s.places, s.extra = places, extra
    def cases(s, hists):
        l = sorted({"".join(s.ops[i - 1]["c"] for i in h) for h in hists} | set(s.extra))
        out = []
        for p in s.places:
            b = s.batch if p != "sheet" else 12
            mk = place_case(p)
            ok = [x for x in l if usable(p, x)]
            for i in range(0, len(ok), b): out.append(("%s %d.." % (p, i), mk([(x, x) for x in ok[i:i + b]], i)))
        return out
def usable(p, x): return not (p in ("text", "lines") and "\n" in x)       # several lines are several paragraphs
def spelled_case(l, k):
    """spelled texts in a file: as element text and (where allowed) as attribute text"""
    d = odsmk.Doc()
    rows = ""
    attr = spelled_case.attr
    for i in range(0, len(l), 4):
        row = ""
        for c, raw in l[i:i + 4]:
            if attr: row += '<table:table-cell table:formula="%s" office:value-type="currency" office:value="1" office:currency="%s" table:content-validation-name="%s"/>' % (raw, raw, raw)
            else: row += '<table:table-cell office:value-type="string"><office:annotation><dc:creator>%s</dc:creator><text:p>%s</text:p></office:annotation><text:p>%s</text:p><text:p>a%s<text:span>%s</text:span>%sb</text:p></table:table-cell>' % (raw, raw, raw, raw, raw, raw)
        rows += "<table:table-row>" + row + "</table:table-row>"
    d.tables = '<table:table table:name="T"><table:table-column table:number-columns-repeated="4"/>' + rows + "</table:table>"
    if attr: d.tables += "".join('<table:table table:name="%s_%d"><table:table-column/><table:table-row><table:table-cell/></table:table-row></table:table>' % (raw, i) for i, (c, raw) in enumerate(l[:3]))
    else: d.meta = "<dc:title>%s</dc:title><dc:subject>%s</dc:subject>" % (l[0][1], l[-1][1])
    fmt = ["ods", "fods"][k % 2]
    g = G(k)
    ops = [{"op": "put_file", "file": "in", "fmt": fmt, "b64": B64(d.pack(fmt))}, {"op": "load", "b": 0, "fmt": fmt, "via": LOADS[fmt][k % 3], "file": "in", "prow": [], "pcol": []}]
    cyc(g, 0, "f", 1, ops, [0], [0])
    ops.append({"op": "same", "b": 0, "b2": 1})
    return {"ops": ops}
def spelled_mk(attr):
    def mk(l, k):
        spelled_case.attr = attr
        return spelled_case(l, k)
    mk.unspelled = False
    return mk
def nasty_doc(g):
    """texts of every kind in all places of one document"""
    m = Mk(g, True)
    names = []
    while len(names) < g.pick([1, 2, 3]):
        x = m.a()
        if x not in names: names.append(x)
    ops = book(g, 0, names)
    for _ in range(g.r.randint(6, 16)):
        r, c = g.pick([0, 1, 2, 3]), g.pick([0, 1, 2, 3])
        a = {"b": 0, "s": g.r.randrange(len(names)), "r": r, "c": c}
        t = g.pick(["text", "text", "lines", "xml", "formula", "currency", "cellstyle", "validation", "ann", "frame"])
        x = m.a() if t in ("formula", "currency", "cellstyle", "validation") else m.w() if t != "text" else g.pick([m.w(), " " + m.w(), m.w() + " ", m.w() + "\t" + m.w()])
        for o in PLACES[t](0, x): ops.append(dict(o, **a))
    for _ in range(g.pick([0, 2, 5])): ops.append(dict(m.fact(g.pick([k for k in Mk.KINDS if k != "file"])), op="reg_put", b=0))
    for _ in range(g.pick([0, 2, 4])): ops.append(dict(m.meta(), op="set_field", b=0))
    if g.p(0.3): ops.append({"op": "set_field", "b": 0, "k": "script", "n": "", "t": m.script()})
    if g.p(0.3): ops.append({"op": "set_field", "b": 0, "k": "cfg", "n": "active_table", "t": g.pick(names)})
    ops.append(q_book(0, PR, PC))
    for i in range(g.pick([1, 2])):
        cyc(g, i, "f%d" % i, i + 1, ops)
        if i: ops.append({"op": "same", "b": i, "b2": i + 1})
    return {"ops": ops}
def spelled_file(mk):
    def f(g):
        with odsmk.spelled(g): return mk(g)
    return f
NF = [look_file(STYLES, True), look_file(FORMATS, True), look_file(["font", "page", "master"], True), valid_file(True), meta_file(True), cfg_file(True), carried_file(True)]
def nasty_file(g): return g.pick(NF)(g)
CH1 = ["&", "<", ">", "\"", "'", ";", " ", "]"] + ODD[:3]
CH2 = ["&", "<", ">", "\"", "'", "a"]
EXTRA = [x for x in NASTY + LINES]
PL = [p for p in PLACES if p not in ("active",)]
ALL["P06"] = Profile([Places("places", CH1, 2, 70, PL, EXTRA), Texts("spelled", ["&", "<", ">", "\"", "a", "]"], 2, False, 60, spelled_mk(False)), Texts("spelled_attr", ["&", "<", "'", "\"", "a", "\n"], 2, True, 60, spelled_mk(True))],
    [Places("places", CH1 + ODD[3:] + ["\t", "#", "a"], 3, 70, PL, EXTRA), Texts("spelled", ["&", "<", ">", "\"", "a", "]"], 3, False, 60, spelled_mk(False)), Texts("spelled_attr", ["&", "<", "'", "\"", "a", "\n"], 3, True, 60, spelled_mk(True))],
    [(nasty_doc, 120, 6000), (spelled_file(nasty_file), 80, 4000)], facts=True)

# ------------------------------------------------------------------ repeated saving (P21)
def round_(fmt, via="buf", f="x"):
    """save and read back into the same place, asked before and after"""
    return {"op": "cycle", "do": [{"op": "save", "b": 0, "fmt": fmt, "via": via, "file": f}, q_book(0, PR, PC), {"op": "load", "b": 0, "fmt": fmt, "via": "buf", "file": f, "prow": PR, "pcol": PC}, q_book(0, PR, PC)]}
def keep(fmt): return {"op": "cycle", "do": [{"op": "save", "b": 0, "fmt": fmt, "via": "buf", "file": "k"}, q_book(0, PR, PC)]}
def a_cycle():
    return [round_("ods"), round_("fods"), keep("ods"), keep("fods")] + S([V(0, 0, N(1.0)), {"op": "set_row_height", "i": 1, "x": "1cm"}, {"op": "set_rowstyle", "i": 1, "x": "ro1"}, {"op": "set_col_width", "i": 1, "x": "2cm"}, {"op": "set_header_cols", "lo": 0, "hi": 1}, {"op": "add_row_group", "lo": 1, "hi": 2}, {"op": "set_row_span", "r": 0, "c": 0, "n": 2}])
def tail_twice(k):
    f1, f2 = [("ods", "ods"), ("ods", "fods"), ("fods", "ods"), ("fods", "fods")][k % 4]
    return round_(f1)["do"] + [{"op": "save", "b": 0, "fmt": f2, "via": "buf", "file": "y"}, {"op": "load", "b": 1, "fmt": f2, "via": "buf", "file": "y", "prow": PR, "pcol": PC}, {"op": "same", "b": 0, "b2": 1}]
def history_case(g):
    """edits of every kind, saves in every format, reloads of old and new files, in any order"""
    m = Mk(g)
    names = ["Sheet1", "A b"][:g.pick([1, 2])]
    ops = book(g, 0, names) + styles()
    areas = [Area(g) for _ in names]
    pr = sorted({x for a in areas for x in a.probes()[0]})
    pc = sorted({x for a in areas for x in a.probes()[1]})
    F = g.pick([{"cell", "clear", "span", "xml"}, {"cell", "clear", "rep"}, {"cell", "clear", "rich"}])
    known, files, b, nf, nb = {}, [], 0, 0, 1
    kinds = g.r.sample([k for k in Mk.KINDS if k not in ("st:row", "st:col")], 4)
    def edit(b):
        i = g.r.randrange(len(names))
        t = g.pick(["c", "c", "c", "a", "a", "f", "r", "r", "m", "k", "v"])
        if t == "c": return dict(cell_edit(g, areas[i], F), b=b, s=i)
        if t == "a": return dict(attr_edit(g, areas[i], F), b=b, s=i)
        if t == "f": return dict(form_edit(g, areas[i], {"hdr", "grp", "lvl"}), b=b, s=i)
        if t == "r": return dict(reg_edit(g, m, kinds, known), b=b)
        if t == "m": return dict(m.meta(), op="set_field", b=b)
        if t == "k": return dict(cfg_edits(g, m, names, b, 1)[0])
        return dict(m.valid(), op="reg_put", b=b)
    for _ in range(g.r.randint(3, 10)): ops.append(edit(0))
    for _ in range(g.r.randint(4, 9)):
        t = g.pick(["edit", "edit", "save", "save", "again", "round", "round", "old", "twice"])
        if t == "edit":
            for _ in range(g.pick([1, 2, 4])): ops.append(edit(b))
            ops.append(q_book(b, pr, pc))
        elif t in ("save", "again"):
            for _ in range(1 if t == "save" else 2):
                sv = save(g, b, "h%d" % nf); nf += 1
                files.append(sv); ops += [sv, q_book(b, pr, pc)]
        elif t == "old" and files:
            ops += [load(g, g.pick(files), 50, pr, pc)]
        elif t == "round":
            sv = save(g, b, "h%d" % nf); nf += 1
            files.append(sv)
            ops += [sv, q_book(b, pr, pc), load(g, sv, nb, pr, pc)]
            b = nb; nb += 1
        elif t == "twice":
            for k in range(2):
                sv = save(g, b, "h%d" % nf); nf += 1
                ops += [sv, load(g, sv, nb, pr, pc)]
                if k: ops.append({"op": "same", "b": b, "b2": nb})
                b = nb; nb += 1
    for k in range(3):
        sv = save(g, b, "z%d" % k)
        ops += [sv, q_book(b, pr, pc), load(g, sv, nb, pr, pc)]
        if k: ops.append({"op": "same", "b": b, "b2": nb})
        b = nb; nb += 1
    return {"ops": ops}
def foreign_case(g):
    """a file of another application: read, then cycles change nothing; edits in between"""
    m = Mk(g, g.p(0.3))
    d = carried_doc(g, m)
    add_looks(g, m, d, g.r.sample(LOOKS, 4), g.r.randint(0, 8))
    add_meta(g, m, d, g.r.randint(0, 5))
    if g.p(0.6): d.settings = "".join(xml(cfg_tree(t)) for t in settings_tree(g, m, ["X", "T0"]))
    t = odsmk.TableGen(g, set(g.pick(["ws grp wrap hdr", "ws span", "ws rich calcext"]).split()))
    d.tables += t.table("X")
    d.auto += odsmk.base_styles() + '<style:style style:name="fta1" style:family="table"/>'
    ops = []
    put_doc(g, d, ops)
    n = 0
    for k in range(g.pick([2, 3, 4])):
        cyc(g, n, "f%d" % k, n + 1, ops)
        ops.append({"op": "same", "b": n, "b2": n + 1})
        n += 1
        if g.p(0.3):
            ops += [dict(V(g.pick([0, 1]), g.pick([0, 1]), g.value(["num", "text"])), b=n, s=0), dict(attr_edit(g, Area(g), set()), b=n, s=0), q_book(n, PR, PC)]
    return {"ops": ops}
ALL["P21"] = Profile([Model("cycle", PRE1, a_cycle(), 3, tail_twice, 200)], [Model("cycle", PRE1, a_cycle(), 4, tail_twice)], [(history_case, 60, 5000), (foreign_case, 40, 3000)], facts=True)
