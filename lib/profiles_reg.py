"""Programs about everything besides the cells: registries, styles, formats, validations, metadata, settings, carried content, text, cycles."""
import json
from gen import *
import odsmk
from odsmk import xml
from regmk import Mk, tree_of, meta_trees, cfg_tree, NASTY, LINES
from profiles import *
from profiles_io import rich_ann, rich_frame, rich_v

LOC = ["", "en_US", "de_AT", "cs_CZ", "xx"]
STYLES = ["st:" + f for f in Mk.FAMS]
FORMATS = ["nf:" + f for f in Mk.PK]
LOOKS = STYLES + FORMATS + ["font", "page", "master"]
NAMED = [k for k in LOOKS if k != "font"] + ["valid"]            # kinds that give a name to an entry without one
def book(g, b=0, sheets=("Sheet1",)): return [dict({"op": "new", "b": b}, **({"locale": l} if (l := g.pick(LOC)) else {}))] + [{"op": "push", "b": b, "x": x} for x in sheets]
def cyc(g, b, f, to, ops, pr=PR, pc=PC, fmt=None):
    """save (the book is asked before and after), reload"""
    sv = save(g, b, f, fmt)
    ops += [sv, q_book(b, pr, pc), load(g, sv, to, pr, pc)]
    return sv
def reg_edit(g, m, kinds, known):
    """one operation on a registry; known: names that may be in use"""
    k = g.pick(kinds)
    t = g.pick(["put"] * 5 + ["mod", "del", "get"])
    f = m.fact(k)
    if t != "put" and known.get(k) and g.p(0.8): f["n"] = g.pick(known[k])
    if t == "put":
        if k in NAMED and g.p(0.25): f["n"] = ""
        else: known.setdefault(k, []).append(f["n"])
        return dict(f, op="reg_put", b=0)
    if t == "mod": return dict(f, op="reg_mod", b=0)
    return {"op": "reg_" + t, "b": 0, "k": k, "n": f["n"]}
def defaults(g, m, ops):
    """at most one default style per family, with a name of its own"""
    for k in STYLES:
        if g.p(0.12): ops.append(dict(m.fact(k, "d"), op="reg_put", b=0, n="dflt"))
def use(g, ops, n=4):
    """cells and lines that use entries"""
    for _ in range(n):
        r, c = g.pick([0, 1, 2]), g.pick([0, 1, 2])
        t = g.pick(["v", "st", "va", "h"])
        if t == "v": ops.append({"op": "set_value", "b": 0, "s": 0, "r": r, "c": c, "v": g.value(["num", "text", "bool", "dt"])})
        elif t == "st": ops.append({"op": "set_cellstyle", "b": 0, "s": 0, "r": r, "c": c, "st": g.pick(["s1", "s2", "a b"])})
        elif t == "va": ops += [{"op": "set_value", "b": 0, "s": 0, "r": r, "c": c, "v": N(1.0)}, {"op": "set_validation", "b": 0, "s": 0, "r": r, "c": c, "va": g.pick(["val1", "val2"])}]
        else: ops.append({"op": g.pick(["set_row_height"]), "b": 0, "s": 0, "i": r, "x": "1cm"})
# ------------------------------------------------------------------ registries (P12)
def reg_case(g):
    m = Mk(g)
    ops = book(g)
    known = {}
    kinds = g.r.sample(Mk.KINDS, g.pick([1, 2, 3, 5]))
    for i in range(g.r.randint(6, 30)):
        ops.append(reg_edit(g, m, kinds, known))
        if g.p(0.08): ops.append(q_book(0))
    ops.append(q_book(0))
    return {"ops": ops}
def reg_cycle(g):
    """names given on adding stay free of clashes with names that were read"""
    m = Mk(g)
    ops = book(g)
    kinds = g.r.sample(NAMED, 3)
    for _ in range(g.r.randint(2, 6)): ops.append(dict(m.fact(g.pick(kinds)), op="reg_put", b=0, n=""))
    for _ in range(2): ops.append(dict(m.fact(g.pick(kinds)), op="reg_put", b=0))
    sv = cyc(g, 0, "f", 1, ops)
    for _ in range(g.r.randint(2, 8)): ops.append(dict(m.fact(g.pick(kinds)), op="reg_put", b=1, n=""))
    ops.append(q_book(1))
    cyc(g, 1, "f2", 2, ops)
    return {"ops": ops}
VTS = ["bool", "num", "pct", "cur", "text", "xml", "dt", "dur", "empty"]
def def_case(g):
    """default styles per value type: applied to cells of the type without own style"""
    ops = book(g) + styles()
    for _ in range(g.pick([0, 1, 2, 4])): ops.append({"op": "def_style", "b": 0, "k": g.pick(["bool", "num", "pct", "cur", "text", "dt", "dur"]), "x": g.pick(CELLST)})
    ops.append(q_book(0))
    for i in range(g.r.randint(4, 14)):
        o = {"op": "set_value", "b": 0, "s": 0, "r": i // 4, "c": i % 4, "v": g.value(VTS)}
        if g.p(0.3): o.update(op="set_styled_value", st=g.pick(CELLST))
        ops.append(o)
    # cells that are covered, repeated, validated or have a formula are cells of their type as well
    for _ in range(g.pick([0, 0, 1, 3])): ops.append({"op": g.pick(["set_col_span", "set_row_span", "set_repeat"]), "b": 0, "s": 0, "r": g.pick([0, 1, 2]), "c": g.pick([0, 1, 2, 3]), "n": 2})
    for _ in range(g.pick([0, 0, 2])): ops.append(g.pick([{"op": "set_formula", "b": 0, "s": 0, "r": g.pick([0, 1, 2]), "c": g.pick([0, 1, 2, 3]), "f": "of:=1"}, {"op": "set_validation", "b": 0, "s": 0, "r": g.pick([0, 1, 2]), "c": g.pick([0, 1, 2, 3]), "va": "val1"}]))
    cyc(g, 0, "f", 1, ops)
    return {"ops": ops}
def a_reg(k, m):
    f = m.fact(k)
    f2 = dict(m.fact(k), t=f["t"])
    g2 = m.fact(k)
    o = [dict(f, n="a", op="reg_put"), dict(g2, n="a", op="reg_put"), dict(f, n="b", op="reg_put"), dict(g2, n="b", op="reg_mod"), {"op": "reg_del", "k": k, "n": "a"}, {"op": "reg_get", "k": k, "n": "b"}]
    if k in NAMED: o += [dict(f, n="", op="reg_put"), dict(g2, n="", op="reg_put")]
    return [dict(x, b=0) for x in o]
def tail_reg(k): return [q_book(0)]
def reg_models(depth, kinds):
    return [Model("reg_" + k.replace(":", "_"), [{"op": "new", "b": 0, "facts": True}, {"op": "push", "b": 0, "x": "S"}], a_reg(k, Mk(G(77 + i))), depth, tail_reg) for i, k in enumerate(kinds)]
ALL["P12"] = Profile(reg_models(3, ["st:cell", "nf:number", "valid"]), reg_models(4, Mk.KINDS), [(reg_case, 220, 8000), (reg_cycle, 60, 2000), (def_case, 60, 2000)], facts=True)

# ------------------------------------------------------------------ looks (P13)
def look_case(kinds, nasty=False, cycles=(1, 2)):
    def mk(g):
        m = Mk(g, nasty)
        ops = book(g)
        known = {}
        ks = g.r.sample(kinds, min(len(kinds), g.pick([1, 2, 4])))
        defaults(g, m, ops)
        for _ in range(g.r.randint(2, 9)): ops.append(dict(m.fact(g.pick(ks)), op="reg_put", b=0))
        use(g, ops, 3)
        ops.append(q_book(0, PR, PC))
        n = g.pick(cycles)
        for i in range(n):
            cyc(g, i, "f%d" % i, i + 1, ops)
            if i: ops.append({"op": "same", "b": i, "b2": i + 1})
        return {"ops": ops}
    return mk
TBL = '<table:table table:name="%s"><table:table-column/><table:table-row><table:table-cell office:value-type="float" office:value="1"/></table:table-row></table:table>'
def put_doc(g, d, ops, fmt=None, b=0, f="in", tail=True):
    fmt = fmt or g.pick(["ods", "fods"])
    ops.append({"op": "put_file", "file": f, "fmt": fmt, "b64": B64(d.pack(fmt))})
    ops.append({"op": "load", "b": b, "fmt": fmt, "via": g.pick(LOADS[fmt]), "file": f, "prow": PR, "pcol": PC})
    return fmt
def ws(g): return g.pick(["", "", "\n", "  "])
def add_looks(g, m, d, kinds, n):
    """facts with names of their own, spread over the sections they belong to; exp: empty elements in both forms"""
    exp = lambda: g.p(0.4)
    seen = set()
    for _ in range(n):
        k = g.pick(kinds)
        u = "d" if k in STYLES and (k, "d") not in seen and g.p(0.12) else None
        f = m.fact(k, u)
        key = (k, "d") if u else (k, f["n"])
        fam = (k.split(":")[0], f["n"])
        if key in seen or (k in FORMATS and ("nf", f["n"]) in seen): continue
        seen.add(key)
        if k in FORMATS: seen.add(("nf", f["n"]))
        x = xml(tree_of(g, f), exp) + ws(g)
        if k == "font":
            if f["o"] == "c": d.fonts += x
            else: d.sfonts += x
        elif k == "page": d.sauto += x
        elif k == "master": d.master += x
        elif f["u"] == "a":
            if f["o"] == "c": d.auto += x
            else: d.sauto += x
        else: d.styles += x
def look_file(kinds, nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        d = odsmk.Doc()
        add_looks(g, m, d, g.r.sample(kinds, min(len(kinds), g.pick([1, 3, 5]))), g.r.randint(2, 12))
        d.tables = TBL % "T"
        ops = []
        put_doc(g, d, ops)
        cyc(g, 0, "f1", 1, ops)
        ops.append({"op": "same", "b": 0, "b2": 1})
        if g.p(0.4): cyc(g, 1, "f2", 2, ops); ops.append({"op": "same", "b": 1, "b2": 2})
        return {"ops": ops}
    return mk
ALL["P13"] = Profile([], [], [(look_case(STYLES), 110, 4000), (look_case(FORMATS), 80, 3000), (look_case(["font", "page", "master"]), 70, 3000), (look_file(STYLES), 110, 4000), (look_file(FORMATS), 90, 3000), (look_file(["font", "page", "master"]), 90, 3000)], facts=True)

# ------------------------------------------------------------------ validations (P14)
OPS6 = ["eq", "ne", "lt", "gt", "le", "ge"]
def cond_case(g, m=None):
    m = m or Mk(g, True)
    ops = []
    for o in OPS6:
        for k in ("value", "content"):
            t = g.pick(["str", "string", "i64", "i8", "u64", "bool", "f64"])
            v = {"str": m.w, "string": m.w, "i64": lambda: str(g.pick([0, -1, 2**62, -2**63])), "i8": lambda: str(g.pick([-128, 127])), "u64": lambda: str(2**64 - 1), "bool": lambda: g.pick(["true", "false"]), "f64": lambda: g.pick(["1.5", "-0.25", "0.1", "123.456"])}[t]()
            ops.append({"op": "cond", "c": [k, o, t, v]})
        ops.append({"op": "cond", "c": ["length", o, str(g.pick([0, 1, 4294967295]))]})
    ops.append({"op": "cond", "c": [g.pick(["between", "not_between"]), str(g.pick([0, 1])), str(g.pick([1, 77]))]})
    t = g.pick(["str", "string", "i64", "bool"])
    ops.append({"op": "cond", "c": ["list", t, [m.w() if t in ("str", "string") else str(g.r.randint(-9, 9)) if t == "i64" else g.pick(["true", "false"]) for _ in range(g.r.randint(1, 4))]]})
    ops.append({"op": "cond", "c": ["range", g.pick([".A1:.B2", "Sheet1.A1:.C9", "$Sheet1.$A$1:.$C$9", "'a b'.A1:.A2"])]})
    for a in ("date", "time", "decimal-number", "whole-number"): ops.append({"op": "cond", "c": ["and", a, m.cond()]})
    ops.append({"op": "cond", "c": ["formula", g.pick(["[.A1]=1", "TRUE()"])]})
    return {"ops": ops}
def valid_case(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        ops = book(g)
        known = {}
        for _ in range(g.r.randint(1, 8)): ops.append(reg_edit(g, m, ["valid"], known))
        use(g, ops, 5)
        ops.append(q_book(0, PR, PC))
        for i in range(g.pick([1, 2])):
            cyc(g, i, "f%d" % i, i + 1, ops)
            if i: ops.append({"op": "same", "b": i, "b2": i + 1})
        return {"ops": ops}
    return mk
FCONDS = ["cell-content-is-whole-number() and cell-content()>1", "cell-content-is-in-list(\"a\";\"b\")", "cell-content-is-between(1,5)", "is-true-formula([.A1]>1)", "cell-content-text-length()<3", "cell-content-is-text()", ""]
def valid_file(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        d = odsmk.Doc()
        fs, seen = [], set()
        for _ in range(g.r.randint(1, 6)):
            f = m.valid(g.pick(FCONDS) if g.p(0.6) else None)
            if f["n"] not in seen: seen.add(f["n"]); fs.append(f)
        d.pre = "<table:content-validations>" + ws(g) + ws(g).join(xml(tree_of(g, f), lambda: g.p(0.4)) for f in fs) + "</table:content-validations>"
        d.tables = '<table:table table:name="T"><table:table-column table:number-columns-repeated="%d"/><table:table-row>' % len(fs) + "".join(xml(["table:table-cell", [["table:content-validation-name", f["n"]]], []]) for f in fs) + "</table:table-row></table:table>"
        ops = []
        put_doc(g, d, ops)
        cyc(g, 0, "f1", 1, ops)
        ops.append({"op": "same", "b": 0, "b2": 1})
        return {"ops": ops}
    return mk
ALL["P14"] = Profile([], [], [(cond_case, 120, 3000), (valid_case(), 180, 4000), (valid_file(), 220, 5000), (valid_case(True), 40, 2000), (valid_file(True), 40, 2000)], facts=True)

# ------------------------------------------------------------------ metadata (P15)
def meta_case(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        ops = book(g)
        for _ in range(g.r.randint(1, 14)):
            o = dict(m.meta(), op="set_field", b=0)
            if g.p(0.1): o["t"] = ""
            ops.append(o)
        ops.append(q_book(0))
        for i in range(g.pick([1, 2])):
            cyc(g, i, "f%d" % i, i + 1, ops, (), ())
            if i: ops.append({"op": "same", "b": i, "b2": i + 1})
        return {"ops": ops}
    return mk
def add_meta(g, m, d, n):
    seen, out = set(), []
    for _ in range(n):
        f = m.meta()
        if f["n"] in seen: continue
        seen.add(f["n"])
        out += meta_trees(g, f)
    if g.p(0.6): out.append(["meta:generator", [], [m.w()]])
    g.r.shuffle(out)
    d.meta += ws(g) + "".join(xml(t, lambda: g.p(0.4)) + ws(g) for t in out)
def meta_file(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        d = odsmk.Doc()
        add_meta(g, m, d, g.r.randint(1, 12))
        d.tables = TBL % "T"
        ops = []
        put_doc(g, d, ops)
        cyc(g, 0, "f1", 1, ops, (), ())
        ops.append({"op": "same", "b": 0, "b2": 1})
        return {"ops": ops}
    return mk
ALL["P15"] = Profile([], [], [(meta_case(), 260, 6000), (meta_file(), 260, 6000), (meta_case(True), 50, 2000), (meta_file(True), 50, 2000)], facts=True)

# ------------------------------------------------------------------ settings (P16)
shcfg = sheet_setting
def cfg_edits(g, m, names, b, n):
    out = []
    for _ in range(n):
        i = g.r.randrange(len(names))
        t = g.pick(["s", "s", "s", "b", "b", "sp"])
        if t == "s": out.append(dict(shcfg(g), b=b, s=i))
        elif t == "b": out.append(dict(m.cfg(names), op="set_field", b=b))
        else: out.append({"op": g.pick(["split_col_header", "split_row_header", "split_horizontal", "split_vertical"]), "b": b, "s": i, "i": g.pick([0, 1, 2, 5])})
    return out
def cfg_case(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        names = []
        while len(names) < g.pick([1, 2, 3]):
            x = m.w() if nasty else g.pick(["Sheet1", "A", "B", "x y", "Views", "0"])
            if x not in names: names.append(x)
        ops = book(g, 0, names) + cfg_edits(g, m, names, 0, g.r.randint(1, 10))
        ops.append(q_book(0))
        for i in range(g.pick([1, 2, 3])):
            if i:
                ops += cfg_edits(g, m, names, i, g.pick([0, 1, 3]))
                if len(names) > 1 and g.p(0.3): ops.append({"op": "remove", "b": i, "i": len(names) - 1}); names = names[:-1]
                elif g.p(0.3):
                    x = "ren%d" % i
                    ops.append({"op": "set_name", "b": i, "s": 0, "x": x}); names = [x] + names[1:]
                ops.append(q_book(i))
            cyc(g, i, "f%d" % i, i + 1, ops, (), ())
        return {"ops": ops}
    return mk
def cval(g, m):
    t = g.pick(["boolean", "short", "int", "long", "double", "string", "datetime", "base64Binary"])
    v = {"boolean": lambda: g.pick(["true", "false"]), "short": lambda: str(g.pick([0, -5, 32767, -32768])), "int": lambda: str(g.pick([0, -1, 2147483647, -2147483648])), "long": lambda: str(g.pick([0, 2**40, -7, 2**63 - 1, -2**63])), "double": lambda: repr(g.num()),
         "string": lambda: g.pick(["", m.w()]), "datetime": lambda: "%s-%s-%sT%s:%s:%s" % tuple([x.zfill(4) if i == 0 else x for i, x in enumerate(g.dt()[:6])]) + g.pick(["", "", ".500", ".123456789", ".000001"]), "base64Binary": lambda: g.pick(["", "QUJD", "kQH+/0V="])}[t]()
    return [t, v]
def cnode(g, m, d, inmap=False):
    """children of a set or entry"""
    out, n = [], 0
    for i in range(g.r.randint(1, 4)):
        nm = "%s%d" % (g.pick(["Key", "a b", "X"]), i)
        if m.nasty and g.p(0.3): nm = m.w() + str(i)
        t = g.pick(["item", "item", "item", "set", "map-indexed", "map-named"]) if d else "item"
        if t == "item": out.append(["item", nm, cval(g, m)])
        elif t == "set": out.append(["set", nm, cnode(g, m, d - 1)])
        else: out.append([t, nm, [["map-entry", None if t == "map-indexed" else "e%d" % j, cnode(g, m, d - 1 if j < 4 else 0) if g.p(0.9) else []] for j in range(g.pick([0, 1, 2, 3, 3, 12, 25]))]])
    return out
INT = lambda g: str(g.pick([0, 1, 5, 300]))
def settings_tree(g, m, names):
    ent = lambda n: ["map-entry", n, [["item", k, [t, f(g)]] for k, t, f in g.r.sample([
        ("CursorPositionX", "int", INT), ("CursorPositionY", "int", INT), ("HorizontalSplitMode", "short", lambda g: g.pick("012")), ("VerticalSplitMode", "short", lambda g: g.pick("012")), ("HorizontalSplitPosition", "int", INT), ("VerticalSplitPosition", "int", INT),
        ("ActiveSplitRange", "short", lambda g: g.pick("0123")), ("PositionLeft", "int", INT), ("PositionRight", "int", INT), ("PositionTop", "int", INT), ("PositionBottom", "int", INT), ("ZoomType", "short", lambda g: g.pick("012")), ("ZoomValue", "int", INT),
        ("PageViewZoomValue", "int", INT), ("ShowGrid", "boolean", lambda g: g.pick(["true", "false"])), ("AnchoredTextOverflowLegacy", "boolean", lambda g: "false")], g.r.randint(0, 16))]]
    tabs = [["map-named", "Tables", [ent(n) for n in names if g.p(0.8)]]] if g.p(0.85) else []
    bk = [["item", k, v] for k, v in (("ActiveTable", ["string", g.pick(names)]), ("HasSheetTabs", ["boolean", g.pick(["true", "false"])]), ("ShowGrid", ["boolean", g.pick(["true", "false"])]), ("ShowPageBreaks", ["boolean", g.pick(["true", "false"])]), ("ViewId", ["string", "view1"]), ("HorizontalScrollbarWidth", ["int", "270"])) if g.p(0.7)]
    views = ["map-indexed", "Views", [["map-entry", None, g.pick([tabs + bk, bk + tabs])]] + ([["map-entry", None, [["item", "ViewId", ["string", "view2"]]]]] if g.p(0.2) else [])]
    vs = ["set", "ooo:view-settings", [["item", "VisibleAreaTop", ["int", "0"]]] + ([views] if g.p(0.9) else []) + cnode(g, m, 1)]
    cs = ["set", "ooo:configuration-settings", cnode(g, m, 2) + ([["map-named", "ScriptConfiguration", [["map-entry", n, [["item", "CodeName", ["string", g.pick([n, "Sheet1", "codename"])]]]] for n in names if g.p(0.8)]]] if g.p(0.6) else []) + [["item", "LoadReadonly", ["boolean", "false"]], ["item", "PrinterSetup", ["base64Binary", g.pick(["", "kQH+/w=="])]]]]
    l = [x for x in (vs, cs) if g.p(0.9)]
    if g.p(0.3): l.append(["set", "my:settings", cnode(g, m, 3)])
    return l
def cfg_file(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        names = ["T%d" % i for i in range(g.pick([1, 2, 3]))] if not nasty else ["T", g.pick(["a&b", "<x>", "it's"])]
        d = odsmk.Doc()
        d.settings = ws(g) + "".join(xml(cfg_tree(t), lambda: g.p(0.4)) + ws(g) for t in settings_tree(g, m, names))
        d.tables = "".join(TBL % odsmk.aesc(n) for n in names)
        ops = []
        put_doc(g, d, ops)
        if g.p(0.4): ops += cfg_edits(g, m, names, 0, 2)
        ops.append(q_book(0))
        cyc(g, 0, "f1", 1, ops, (), ())
        ops.append({"op": "same", "b": 0, "b2": 1})
        cyc(g, 1, "f2", 2, ops, (), ())
        ops.append({"op": "same", "b": 1, "b2": 2})
        return {"ops": ops}
    return mk
ALL["P16"] = Profile([], [], [(cfg_case(), 150, 5000), (cfg_file(), 200, 6000), (cfg_case(True), 40, 2000), (cfg_file(True), 50, 2000)], facts=True)

# ------------------------------------------------------------------ carried content (P17)
def free_tree(g, m, n, d=2):
    pool = ["table:named-range", "draw:frame", "form:form", "text:p", "svg:desc", "table:filter", "loext:x", "my:el"]
    a = m.some([("table:name", None), ("my:attr", None), ("xlink:href", "#x"), ("table:cell-range-address", "T.A1:T.B2")], 3)
    c = []
    if d:
        for _ in range(g.cnt([0, 1, 2])):
            if g.p(0.3) and not (c and isinstance(c[-1], str)) and n.startswith("text:"): c.append(m.w())
            else: c.append(free_tree(g, m, g.pick(pool), d - 1))
        if not c and g.p(0.5): c = [m.w()]
    return [n, a, c]
def carried_doc(g, m, n=None):
    d = odsmk.Doc()
    d.extra_ns = (("my", "urn:my"),) + ((("other", "http://other/x"),) if g.p(0.5) else ())
    x = lambda t: xml(t, lambda: g.p(0.3))
    pre = [e for e in ("table:tracked-changes", "text:variable-decls", "text:sequence-decls", "text:user-field-decls", "text:dde-connection-decls", "table:calculation-settings", "table:label-ranges") if g.p(0.3)]
    val = x(["table:content-validations", [], [tree_of(g, m.valid())]]) if g.p(0.3) else ""
    order = ["table:tracked-changes", "text:variable-decls", "text:sequence-decls", "text:user-field-decls", "text:dde-connection-decls", "table:calculation-settings", "VAL", "table:label-ranges"]
    for e in order:
        if e == "VAL": d.pre += val
        elif e in pre: d.pre += x(free_tree(g, m, e)) + ws(g)
    for e in ("table:named-expressions", "table:database-ranges", "table:data-pilot-tables", "table:consolidation", "table:dde-links"):
        if g.p(0.35): d.post += x(free_tree(g, m, e)) + ws(g)
    for i in range(g.pick([1, 1, 2])):
        ex = lambda l: "".join(x(free_tree(g, m, e)) for e in l if g.p(0.3))
        d.tables += ('<table:table table:name="T%d">' % i + ex(["table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes"]) +
            '<table:table-column/><table:table-row><table:table-cell office:value-type="float" office:value="1"/></table:table-row>' + ex(["table:named-expressions", "calcext:conditional-formats"]) + "</table:table>")
    if g.p(0.5):
        sc = "".join(xml(["office:script", [["script:language", l]], c]) for l, c in json.loads(m.script())) if g.p(0.7) else ""
        ls, seen = "", set()
        for _ in range(g.cnt([0, 1, 2])):
            f = m.listener()
            if f["n"] in seen: continue
            seen.add(f["n"])
            t = json.loads(f["t"])
            ls += xml(["script:event-listener", [["script:language", t[0]], ["script:event-name", f["n"]], ["xlink:actuate", t[2]], ["xlink:href", t[3]], ["xlink:type", t[4]]] + ([["script:macro-name", t[1]]] if t[1] else []), []], lambda: g.p(0.3))
        d.scripts = "<office:scripts>" + ws(g) + sc + ("<office:event-listeners>" + ls + "</office:event-listeners>" if ls else "") + "</office:scripts>"
    seen = set()
    for _ in range(g.cnt([0, 1, 2, 3])):
        f = m.file()
        if f["n"] in seen: continue
        seen.add(f["n"])
        t = json.loads(f["t"])
        d.files.append((f["n"], t[0], bytes.fromhex(t[2])))
    if g.p(0.3): d.dirs.append(("Object 1/", "application/vnd.oasis.opendocument.chart"))
    return d
def carried_file(nasty=False):
    def mk(g):
        m = Mk(g, nasty)
        d = carried_doc(g, m)
        ops = []
        put_doc(g, d, ops, "ods" if g.p(0.6) else "fods")
        for _ in range(g.pick([0, 0, 1, 2])):
            if g.p(0.5): ops.append(reg_edit(g, m, ["file", "listener"], {}))
            else: ops.append({"op": "set_field", "b": 0, "k": "script", "n": "", "t": m.script()})
        # copies of sheets take along what belongs to the sheet; moved and edited sheets keep it
        if g.p(0.4):
            t = g.pick(["clone", "clone_no_data", "remove", "detach"])
            ops.append({"op": t, "b": 0, "i": 0, "to": 7})
            if g.p(0.5): ops.append(dict(V(g.pick([0, 2]), 1, g.value(["num", "text"])), d=7))
            if t == "detach": ops.append({"op": "attach", "b": 0, "from": 7})
            else:
                if t != "remove": ops.append({"op": "set_name", "d": 7, "x": "copy"})
                ops.append(g.pick([{"op": "push_free", "b": 0, "from": 7}, {"op": "insert_free", "b": 0, "from": 7, "i": 0}]))
        ops.append(q_book(0, PR, PC))
        cyc(g, 0, "f1", 1, ops)
        ops.append({"op": "same", "b": 0, "b2": 1})
        cyc(g, 1, "f2", 2, ops)
        ops.append({"op": "same", "b": 1, "b2": 2})
        return {"ops": ops}
    return mk
def carried_case(g):
    m = Mk(g)
    ops = book(g)
    known = {}
    for _ in range(g.r.randint(1, 8)): ops.append(reg_edit(g, m, ["file", "listener"], known))
    if g.p(0.5): ops.append({"op": "set_field", "b": 0, "k": "script", "n": "", "t": m.script()})
    ops.append(q_book(0))
    cyc(g, 0, "f1", 1, ops)
    cyc(g, 1, "f2", 2, ops)
    ops.append({"op": "same", "b": 1, "b2": 2})
    return {"ops": ops}
def carried_big(g):
    """files longer than any buffer on the way"""
    m = Mk(g)
    ops = book(g)
    for i, n in enumerate(g.r.sample([8191, 8192, 16385, 32768, 65535, 65536, 131073], 2)):
        f = m.file()
        t = json.loads(f["t"]); t[2] = (g.r.randbytes(n) if g.p(0.5) else b"ab" * (n // 2) + b"c" * (n % 2)).hex()
        ops.append(dict(f, op="reg_put", b=0, n="x%d.bin" % i, t=js(t)))
    ops.append(q_book(0))
    cyc(g, 0, "f1", 1, ops)
    return {"ops": ops}
ALL["P17"] = Profile([], [], [(carried_big, 6, 60), (carried_file(), 260, 8000), (carried_file(True), 60, 2000), (carried_case, 80, 3000)], facts=True)
