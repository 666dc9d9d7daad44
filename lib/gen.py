"""Seeded generation of operation programs (the inputs of the conformance checks)."""
import json, random, struct
def js(x): return json.dumps(x, ensure_ascii=False, separators=(",", ":"))
def hexf(f): return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]
E0 = {"k": "empty", "v": []}
NUMS = [0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0,
        0.30000000000000004, 1/3, 123456789.123456789, 1e21, 1e-7, 1e16, 1e15, 100.0, 255.0]
WORDS = ["a", "b", "x y", "tab", "0", "1", "TRUE", "hello world", "ABC", "z9"]
RMAX, CMAX = 2999999, 99999

class G:
    def __init__(s, seed): s.r, s.long = random.Random(seed), True
    def pick(s, l): return s.r.choice(list(l))
    def p(s, x): return s.r.random() < x
    def cnt(s, l):
        """how many: one of the usual numbers, now and then many"""
        return s.r.randint(max(l) + 1, 12) if s.p(0.05) else s.pick(l)
    def size(s, l):
        """how many bytes: now and then more than any buffer"""
        return s.pick([1000, 9000, 70000]) if s.p(0.02) else s.pick(l)
    def num(s):
        x = s.r.random()
        if x < 0.35: return s.pick(NUMS)
        if x < 0.6: return float(s.r.randint(-1000, 1000))
        if x < 0.75: return s.r.uniform(-1e6, 1e6)
        while True:
            f = struct.unpack(">d", struct.pack(">Q", s.r.getrandbits(64)))[0]
            if f == f and abs(f) != float("inf"): return f
    def word(s): return s.pick(WORDS)
    def text(s):
        if s.long and s.p(0.01): return [s.pick(["x", "é", "&", "ab "]) * s.pick([300, 5000, 9000]) + "!"]
        return [s.word() for _ in range(s.cnt([1, 1, 1, 2, 3]))]
    def dt(s):
        y = s.pick([1, 99, 400, 1582, 1899, 1900, 1970, 2000, 2024, 9999, s.r.randint(1, 9999)])
        m = s.r.randint(1, 12)
        d = s.r.randint(1, 28) if s.p(0.8) else (29 if m == 2 and y % 4 == 0 and (y % 100 or y % 400 == 0) else 28 if m == 2 else 30)
        ns = s.pick(["000000000", "500000000", "123456789", "000000001", "999999999", "000001000", "120000000", "%09d" % s.r.randint(0, 999999999)])
        if s.p(0.3): return [str(y), "%02d" % m, "%02d" % d, "00", "00", "00", "000000000"]
        return [str(y), "%02d" % m, "%02d" % d, "%02d" % s.r.randint(0, 23), "%02d" % s.r.randint(0, 59), "%02d" % s.r.randint(0, 59), ns]
    def dur(s):
        v = [str(s.pick([0, 0, 1, 23, 24, 25, 99, 100, 1000, 9999, 123456])), "%02d" % s.pick([0, 0, 59, s.r.randint(0, 59)]),
             "%02d" % s.pick([0, 0, 59, s.r.randint(0, 59)]), s.pick(["000000000", "000000000", "5" + "0" * 8, "123456789", "000000001", "%09d" % s.r.randint(0, 999999999)])]
        zero = v[0] == "0" and v[1] == "00" and v[2] == "00" and v[3] == "000000000"
        return ["+" if zero or s.p(0.6) else "-"] + v
    def value(s, kinds=None):
        k = s.pick(kinds or ["bool", "num", "num", "pct", "cur", "text", "text", "xml", "dt", "dur", "empty"])
        return s.value_k(k)
    def value_k(s, k):
        v = {"empty": lambda: [], "bool": lambda: [s.pick(["true", "false"])], "num": lambda: [hexf(s.num())],
             "pct": lambda: [hexf(s.num())], "cur": lambda: [hexf(s.num()), s.pick(["EUR", "USD", "CHF", "€"])],
             "text": s.text, "xml": lambda: [js(s.para()) for _ in range(s.cnt([1, 1, 2]))], "dt": s.dt, "dur": s.dur}[k]()
        return {"k": k, "v": v}
    def para(s, depth=2):
        """a paragraph with at least one element in it (plain paragraphs are texts)"""
        ch = []
        if s.p(0.6): ch.append(s.word())
        ch.append(["text:span", [["text:style-name", s.pick(["T1", "T2"])]] if s.p(0.6) else [], [s.word()]])
        if s.p(0.3): ch.append(s.word())
        if s.p(0.3): ch.append(["text:a", [["xlink:href", "http://x.y/"]], [s.word()]])
        return ["text:p", [["text:style-name", "P1"]] if s.p(0.3) else [], ch]

# ------------------------------------------------------------------ positions
class Area:
    """where the cells of one sheet go: clustered, so that neighbourhoods of every kind occur"""
    def __init__(s, g, big=False, n=4):
        R = g.pick([[0, 1, 2, 3], [0, 1, 2, 3, 4, 5], [0, 2, 3, 7, 8], [1, 2, 5], [0, 1, 1000, 1001, 5000], [3]])
        C = g.pick([[0, 1, 2, 3], [0, 1, 2, 3, 4, 5], [0, 2, 3, 7], [1, 2, 5], [0, 1, 255, 1000], [2]])
        if big and g.p(0.5): R = R + [g.pick([65535, 65536, 1048574, 1048575, 1048576, RMAX])]
        if big and g.p(0.5): C = C + [g.pick([1023, 1024, 16382, 16383, 16384, CMAX])]
        s.R, s.C, s.g = R, C, g
    def row(s): return s.g.pick(s.R)
    def col(s): return s.g.pick(s.C)
    def rowx(s): return max(0, min(RMAX, s.row() + s.g.pick([0, 0, 0, 1, -1, 2])))
    def colx(s): return max(0, min(CMAX, s.col() + s.g.pick([0, 0, 0, 1, -1, 2])))
    def probes(s):
        pr = sorted({min(RMAX, max(0, r + d)) for r in s.R for d in (-1, 0, 1, 2, 3)})
        pc = sorted({min(CMAX, max(0, c + d)) for c in s.C for d in (-1, 0, 1, 2, 3)})
        return pr, pc

ROWST, COLST, CELLST, TABST, VALS = ["ro1", "ro2", "ro3"], ["co1", "co2", "co3"], ["ce1", "ce2", "ce3"], ["ta1"], ["val1", "val2"]
LENS = ["1cm", "2.5cm", "13mm", "0.5in", "12pt", "3pc"]
def styles(b=0):
    return [{"op": "add_styles", "b": b, "l": [["row", x] for x in ROWST] + [["col", x] for x in COLST] + [["cell", x] for x in CELLST] + [["table", x] for x in TABST]}]

def cell_edit(g, a, F):
    o = {"r": a.row(), "c": a.col()}
    k = ["set_value"] * 5 + ["set_formula", "set_cellstyle", "set_styled_value", "set_validation"]
    if "clear" in F: k += ["clear_formula", "clear_cellstyle", "clear_validation", "remove_cell", "copy_cell", "add_cell", "add_new_cell"]
    if "span" in F: k += ["set_row_span", "set_col_span"] * 2
    if "mx" in F: k += ["set_mx_row_span", "set_mx_col_span"]
    if "rep" in F: k += ["set_repeat"] * 2
    if "rich" in F: k += ["set_ann", "clear_ann", "add_frame", "clear_frames"]
    op = g.pick(k)
    o["op"] = op
    kinds = None if "rich" in F or "xml" in F else ["bool", "num", "num", "pct", "cur", "text", "text", "dt", "dur", "empty"]
    if op in ("set_value", "set_styled_value"): o["v"] = g.value(kinds)
    if op in ("set_styled_value", "set_cellstyle"): o["st"] = g.pick(CELLST)
    if op == "set_formula": o["f"] = "of:=" + g.pick(["1+1", "[.A1]+1", "SUM([.A1:.B2])"])
    if op == "set_validation": o["va"] = g.pick(VALS)
    if op in ("set_row_span", "set_col_span"): o["n"] = g.pick([1, 2, 2, 3, 3, 4])
    if op in ("set_mx_row_span", "set_mx_col_span"): o["n"] = g.pick([1, 2, 3])
    if op == "set_repeat": o["n"] = g.pick([1, 2, 2, 3, 5])
    if op in ("remove_cell", "copy_cell", "add_cell"): o["clip"] = g.pick([0, 1])
    if op == "set_ann": o["x"] = ann(g)
    if op == "add_frame": o["x"] = frame(g)
    if op == "add_new_cell": o["x"] = new_cell(g, F)
    if "zero" in F and "n" in o and g.p(0.1): o["n"] = 0
    return o
def new_cell(g, F):
    return {"v": g.value(), "f": ["of:=1"] if g.p(0.3) else [], "st": [g.pick(CELLST)] if g.p(0.3) else [], "va": [g.pick(VALS)] if g.p(0.3) else [],
            "sp": [g.pick([1, 1, 2]), g.pick([1, 1, 2])] if "span" in F else [1, 1], "mx": [g.pick([1, 2]), g.pick([1, 2])] if "mx" in F else [1, 1],
            "rep": g.pick([1, 1, 2]) if "rep" in F else 1, "ann": [ann(g)] if "rich" in F and g.p(0.3) else [], "df": [frame(g)] if "rich" in F and g.p(0.3) else []}
def ann(g):
    return js([g.pick(["", "n1"]), g.pick([True, False]), [g.word()] if g.p(0.5) else [], g.dt() if g.p(0.5) else [],
               [["text:p", [], [g.word()]] for _ in range(g.cnt([0, 1, 2]))], [["draw:style-name", "gr1"], ["svg:width", "3cm"]][:g.pick([0, 1, 2])]])
def frame(g):
    return js([[g.word()] if g.p(0.4) else [], [g.word()] if g.p(0.4) else [], [["draw:name", g.word()], ["svg:width", "2cm"], ["svg:x", "1cm"]][:g.pick([0, 1, 2, 3])],
               [[[["xlink:href", "Pictures/a.png"]] if g.p(0.5) else [], ["QUJD"] if g.p(0.5) else [], [["text:p", [], [g.word()]]] if g.p(0.4) else []] for _ in range(g.cnt([1, 1, 0, 2]))]])
def attr_edit(g, a, F):
    row = g.p(0.5) if not ("rows" in F) ^ ("cols" in F) else "rows" in F
    ops = (["set_rowstyle", "clear_rowstyle", "set_row_cellstyle", "clear_row_cellstyle", "set_row_visible", "set_row_height", "set_row_height"] if row else
           ["set_colstyle", "clear_colstyle", "set_col_cellstyle", "clear_col_cellstyle", "set_col_visible", "set_col_width", "set_col_width"])
    op = g.pick(ops)
    o = {"op": op, "i": a.rowx() if row else a.colx()}
    if op in ("set_rowstyle", "set_colstyle"): o["x"] = g.pick(ROWST if row else COLST)
    elif op in ("set_row_cellstyle", "set_col_cellstyle"): o["x"] = g.pick(CELLST)
    elif op.endswith("visible"): o["x"] = g.pick(["visible", "collapse", "collapse", "filter"])
    elif op in ("set_row_height", "set_col_width"): o["x"] = g.pick(LENS)
    return o
def form_edit(g, a, F):
    k = []
    if "hdr" in F: k += ["set_header_rows", "set_header_cols"] * 2 + ["clear_header_rows", "clear_header_cols"]
    if "grp" in F: k += ["add_row_group", "add_col_group"] * 4 + ["disp_row_group", "disp_col_group"] * 2 + ["remove_row_group", "remove_col_group"]
    if "lvl" in F: k += ["add_print_range", "clear_print_ranges", "set_tablestyle", "set_display", "set_print"]
    if "cfg" in F: k += ["split_col_header", "split_row_header", "split_horizontal", "split_vertical"]
    op = g.pick(k)
    o = {"op": op}
    if "_rows" in op or "_row_" in op or "_cols" in op or "_col_" in op:
        f = a.rowx if "_row" in op else a.colx
        x, y = f(), f()
        if op.startswith("set_header") or op.startswith("add_") or op.startswith("disp") or op.startswith("remove"):
            o["lo"], o["hi"] = min(x, y), max(x, y)
            if o["hi"] - o["lo"] > 300: o["hi"] = o["lo"] + 2
        if op.startswith("disp"): o["x"] = g.p(0.5)
    if op == "add_print_range": o["x"] = crange(g)
    if op == "set_tablestyle": o["x"] = g.pick(TABST)
    if op in ("set_display", "set_print"): o["x"] = g.p(0.5)
    if op.startswith("split"): o["i"] = g.pick([0, 1, 2, 5])
    return o
def crange(g, table=None):
    ab = lambda n: ("$" if g.p(0.5) else "") + str(n)
    r, c = g.pick([0, 1, 2, 9, 99]), g.pick([0, 1, 25, 26, 701])
    t = table if table is not None else g.pick(["", "Sheet1"])
    return ["", t, ab(r), ab(c), "", ab(r + g.pick([0, 1, 5])), ab(c + g.pick([0, 1, 3]))]

SAVES = [("ods", v) for v in ("buf", "buf_unc", "to", "path", "opt_def", "opt_stored", "opt_d1", "opt_d9")] + [("fods", v) for v in ("buf", "to", "path")]
LOADS = {"ods": ["buf", "from", "path"], "fods": ["buf", "from", "path"]}
def save(g, b=0, f="f", fmt=None):
    fm, via = g.pick([x for x in SAVES if fmt is None or x[0] == fmt])
    return {"op": "save", "b": b, "fmt": fm, "via": via, "file": f}
def load(g, sv, b, pr=(), pc=(), facts=False):
    return {"op": "load", "b": b, "fmt": sv["fmt"], "via": g.pick(LOADS[sv["fmt"]]), "file": sv["file"], "prow": list(pr), "pcol": list(pc), "facts": facts}
def q_book(b, pr=(), pc=(), facts=False): return {"op": "q_book", "b": b, "prow": list(pr), "pcol": list(pc), "facts": facts}

def grid_case(g, F, n=12, sheets=1, cycles=1, big=False):
    """build sheets, save, reload (several cycles with edits in between)"""
    ops = [{"op": "new", "b": 0}] + styles()
    areas = []
    for i in range(sheets):
        ops.append({"op": "push", "b": 0, "x": "Sheet%d" % (i + 1)})
        areas.append(Area(g, big))
    reps = [{} for _ in range(sheets)]
    def edits(b, k):
        for _ in range(k):
            i = g.r.randrange(sheets)
            w = []
            if "cell" in F: w += ["c"] * 4
            if "attr" in F: w += ["a"] * 3
            if F & {"hdr", "grp", "lvl", "cfg"}: w += ["f"] * 2
            if "rowrep" in F and b == 0: w += ["r"]
            t = g.pick(w)
            if t == "c": o = cell_edit(g, areas[i], F)
            elif t == "a": o = attr_edit(g, areas[i], F)
            elif t == "f": o = form_edit(g, areas[i], F)
            else:
                o = {"op": "set_row_repeat", "i": areas[i].row(), "n": g.pick([1, 2, 3, 5])}
                # row headers inside of the range of a repeated row are not part of the domain
                R = reps[i]
                if any(j != o["i"] and (j <= o["i"] < j + m or o["i"] <= j < o["i"] + o["n"]) for j, m in R.items()): continue
                R[o["i"]] = o["n"]
            ops.append(dict(o, b=b, s=i))
    pr = sorted({x for a in areas for x in a.probes()[0]})
    pc = sorted({x for a in areas for x in a.probes()[1]})
    edits(0, n)
    ops.append(q_book(0, pr, pc))
    b = 0
    for cyc in range(cycles):
        sv = save(g, b, "f%d" % cyc)
        ops.append(sv)
        ops.append(q_book(b, pr, pc))
        ops.append(load(g, sv, b + 1, pr, pc))
        b += 1
        if cyc + 1 < cycles: edits(b, max(1, n // 3)); ops.append(q_book(b, pr, pc))
    return {"ops": ops}

def packed_case(g):
    """rows packed with repeated cells that do not run into each other, spans from above over cells, repeats and gaps"""
    l = []
    many = g.p(0.25)        # one line of many spans
    for r in range(g.pick([2, 3, 4])):
        c = g.pick([0, 0, 1, 2])
        while c < (28 if many else 10) and g.p(0.97 if many and r == 0 else 0.85):
            n = 1 if many and r == 0 else g.pick([1, 1, 2, 3, 4])
            o = [{"op": "set_value", "r": r, "c": c, "v": g.value(["num", "text"])}] if g.p(0.8) else [{"op": "set_cellstyle", "r": r, "c": c, "st": "ce1"}]
            if n > 1: o.append({"op": "set_repeat", "r": r, "c": c, "n": n})
            elif g.p(0.5):
                if g.p(0.7): o.append({"op": "set_row_span", "r": r, "c": c, "n": g.pick([2, 2, 3])})
                if g.p(0.6): o.append({"op": "set_col_span", "r": r, "c": c, "n": g.pick([2, 2, 3])})
            l.append(o)
            c += n + g.pick([0, 1, 2] if many else [0, 0, 1, 1, 2, 3])
    g.r.shuffle(l)
    pr, pc = list(range(0, 6)), list(range(0, 8))
    ops = [{"op": "new", "b": 0}] + styles() + [{"op": "push", "b": 0, "x": "S"}] + [dict(x, b=0, s=0) for o in l for x in o]
    sv = save(g, 0, "f")
    return {"ops": ops + [q_book(0, pr, pc), sv, load(g, sv, 1, pr, pc)]}

# ------------------------------------------------------------------ references
NAMES = ["", "A", "Sheet1", "Sheet 1", "a.b", "it's", "'q'", "x#y", "1", "1a", "a$b", "ümläut", "日本", "a]b", "a[b", "T-1", "a:b", "$x", "x!", "a\"b", "O'Brien''s", "_x", "A1", "a&b", " lead", "trail ", "😀", "a\tb", "#REF!"]
IRIS = ["", "", "", "file:///a/b.ods", "http://x.y/z's.ods", "../o ther.ods", "a#b.ods"]
ROWS_ = [0, 1, 8, 9, 10, 98, 99, 1023, 65535, 1048575, 99999998]
COLS_ = [0, 1, 24, 25, 26, 27, 50, 51, 52, 700, 701, 702, 703, 16383, 16384, 18277, 18278, 475253, 475254, 12356629, 12356630]
def rnum(g, l): return g.pick(l) if g.p(0.8) else g.r.randint(0, 16383)
def rstr(g, l): return ("$" if g.p(0.4) else "") + str(rnum(g, l))
def ref_v(g, kind):
    i, t, t2 = g.pick(IRIS), g.pick(NAMES), g.pick(NAMES)
    if kind == "cell": return [i, t, rstr(g, ROWS_), rstr(g, COLS_)]
    if kind == "cells": return [i, t, rstr(g, ROWS_), rstr(g, COLS_), t2 if g.p(0.5) else "", rstr(g, ROWS_), rstr(g, COLS_)]
    L = COLS_ if kind == "cols" else ROWS_
    return [i, t, rstr(g, L), t2 if g.p(0.5) else "", rstr(g, L)]
def colname(i):
    s = ""
    i += 1
    while i: i, r = divmod(i - 1, 26); s = chr(65 + r) + s
    return s
def qname_(t, g):
    if t == "": return ""
    safe = t.isalnum() and t.isascii()
    if safe and g.p(0.6): return ("$" if g.p(0.4) else "") + t
    return ("$" if g.p(0.4) else "") + "'" + t.replace("'", "''") + "'"
def ref_text(g, kind, v):
    """a text of this reference as any producer may write it"""
    d = lambda x: ("$", x[1:]) if x[0] == "$" else ("", x)
    col = lambda x: d(x)[0] + colname(int(d(x)[1]))
    row = lambda x: d(x)[0] + str(int(d(x)[1]) + 1)
    iri = "'" + v[0].replace("'", "''") + "'#" if v[0] else ""
    if kind == "cell": return iri + qname_(v[1], g) + "." + col(v[3]) + row(v[2])
    if kind == "cells": return iri + qname_(v[1], g) + "." + col(v[3]) + row(v[2]) + ":" + qname_(v[4], g) + "." + col(v[6]) + row(v[5])
    f = col if kind == "cols" else row
    return iri + qname_(v[1], g) + "." + f(v[2]) + ":" + qname_(v[3], g) + "." + f(v[4])
KINDS = ["cell", "cells", "cols", "rows"]
def mutate_text(g, x, alphabet=".:$'#]A1 0"):
    for _ in range(g.pick([1, 1, 2])):
        i = g.r.randint(0, len(x))
        t = g.pick(["ins", "del", "rep", "cut", "dup"])
        if t == "ins": x = x[:i] + g.pick(alphabet) + x[i:]
        elif t == "del": x = x[:i] + x[i + 1:]
        elif t == "rep": x = x[:i] + g.pick(alphabet) + x[i + 1:]
        elif t == "cut": x = x[:i]
        else: x = x[:i] + x[max(0, i - 3):]
    return x
FNS = ["fcellref", "fcellrefr", "fcellrefc", "fcellrefa", "frangeref", "frangerefr", "frangerefc", "frangerefa"]
def ref_case(g):
    ops = []
    for _ in range(12):
        k = g.pick(KINDS)
        ops.append({"op": "ref", "kind": k, "v": ref_v(g, k)})
    for _ in range(8):
        k = g.pick(KINDS); v = ref_v(g, k)
        ops.append({"op": "ref_parse", "kind": k, "x": ref_text(g, k, v), "via": g.pick(["fn", "try"])})
        ops.append({"op": "ref_parse", "kind": g.pick(KINDS) if g.p(0.2) else k, "x": mutate_text(g, ref_text(g, k, v)), "via": g.pick(["fn", "try"])})
    ops.append({"op": "ref_list", "x": g.pick([" ", " ", "  "]).join(ref_text(g, "cells", ref_v(g, "cells")) for _ in range(g.r.randint(1, 3)))})
    for _ in range(6):
        k = g.pick(["cell", "cells", "cells", "span", "cols", "rows"])
        r, c = rnum(g, ROWS_[:8]), rnum(g, COLS_[:12])
        n = {"cell": [r, c], "cells": [r, c, r + g.pick([0, 1, 5, 0, -1]), c + g.pick([0, 1, 5, 0, -1])], "span": [r, c, g.pick([1, 2, 5, 0]), g.pick([1, 2, 5])], "cols": [c, c + g.pick([0, 3, -1])], "rows": [r, r + g.pick([0, 3, -1])]}[k]
        n = [max(0, x) for x in n]
        fs = {"cell": ["row", "col"], "cells": ["row", "col", "to_row", "to_col"], "span": ["row", "to_col"], "cols": ["col", "to_col"], "rows": ["row", "to_row"]}[k]
        mods = []
        for _ in range(g.r.randint(0, 4)):
            m = g.pick(["num", "abs", "table", "iri", "absolute", "part"])
            if m == "num": mods.append([g.pick(fs), str(rnum(g, COLS_))])
            elif m == "abs": mods.append([g.pick(fs) + "_abs", g.pick(["true", "false"])])
            elif m == "table": mods.append([g.pick(["table", "to_table"] if k != "cell" else ["table"]), g.pick(NAMES[1:])])
            elif m == "iri": mods.append(["iri", g.pick(IRIS[3:])])
            elif m == "absolute": mods.append(["absolute", ""])
            elif k == "cell": mods.append([g.pick(["absolute_row", "absolute_col"]), ""])
            elif k in ("cells", "span"): mods.append([g.pick(["absolute_rows", "absolute_cols"]), ""])
        ops.append({"op": "ref_make", "kind": k, "t": g.pick(NAMES[1:]) if k in ("cell", "cells") and g.p(0.4) else "", "n": n, "mods": mods})
    for _ in range(4):
        k = g.pick(["cells", "cols", "rows"])
        r, c, r2, c2 = [g.r.randint(0, 6) for _ in range(4)]
        v = {"cells": ["", "", str(r), "$" + str(c), "", str(r2), str(c2)], "cols": ["", "", str(c), "", str(c2)], "rows": ["", "", str(r), "", "$" + str(r2)]}[k]
        ops.append({"op": "ref_has", "kind": k, "v": v, "pts": [[g.r.randint(0, 7), g.r.randint(0, 7)] for _ in range(8)]})
    for _ in range(3): ops.append({"op": "ref_name", "x": rstr(g, COLS_)})
    for _ in range(6):
        f = g.pick(FNS); t = g.p(0.5)
        n = [rnum(g, ROWS_), rnum(g, COLS_)]
        if f.startswith("frange"): n += [n[0] + g.pick([0, 3]), n[1] + g.pick([0, 2])]
        m = f[-1] if f[-2:] in ("fr", "fc", "fa") else ""
        ops.append({"op": "ref_fn", "f": f + ("_table" if t else ""), "m": m, "t": g.pick(NAMES[1:]) if t else "", "n": n})
    for _ in range(4):
        tab = g.p(0.5); k = g.pick([2, 4])
        ops.append({"op": "ref_macro", "tab": tab, "t": g.pick(NAMES[1:]) if tab else "", "ab": "".join(g.pick("01") for _ in range(k)), "n": [rnum(g, ROWS_), rnum(g, COLS_), rnum(g, ROWS_), rnum(g, COLS_)][:k]})
    return {"ops": ops}

SHK = ["cursor_x", "cursor_y", "hor_split_pos", "vert_split_pos", "position_left", "position_right", "position_top", "position_bottom", "zoom_value", "page_view_zoom_value", "active_split_range", "zoom_type", "hor_split_mode", "vert_split_mode", "show_grid"]
def sheet_setting(g):
    k = g.pick(SHK)
    x = g.pick(["true", "false"]) if k == "show_grid" else g.pick(["0", "1", "2"]) if k.endswith("mode") else str(g.pick([0, 1, 2, 3])) if k in ("active_split_range", "zoom_type") else str(g.pick([0, 1, 7, 100, 1000000]))
    return {"op": "set_cfg", "k": k, "x": x}
