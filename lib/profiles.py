"""Which programs decide which property: exhaustive alphabets for TLC (models) and seeded programs (cases)."""
import base64
from gen import *
import odsmk

def B64(b): return base64.b64encode(b).decode()
N = lambda x: {"k": "num", "v": [hexf(x)]}
T = lambda x: {"k": "text", "v": [x]}
PR, PC = [0, 1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4, 5, 6]
PRE1 = [{"op": "new", "b": 0}] + styles() + [{"op": "push", "b": 0, "x": "S"}]
def S(l, s=0): return [dict(o, b=0, s=s) for o in l]

def tail_cycle(k, pr=PR, pc=PC):
    """query, save, query, reload: format and route rotate with the number of the history"""
    fmt, via = SAVES[k % len(SAVES)]
    lv = LOADS[fmt][k % 3]
    return [q_book(0, pr, pc), {"op": "save", "b": 0, "fmt": fmt, "via": via, "file": "f"}, q_book(0, pr, pc),
            {"op": "load", "b": 1, "fmt": fmt, "via": lv, "file": "f", "prow": pr, "pcol": pc, "facts": False}]
def tail_query(k, pr=PR, pc=PC): return [q_book(0, pr, pc)]

class Model:
    """an alphabet whose histories TLC enumerates completely up to a depth"""
    def __init__(s, name, pre, ops, depth, tail=tail_cycle, sample=None): s.name, s.pre, s.ops, s.depth, s.tail, s.sample = name, pre, ops, depth, tail, sample
    module = "Gen"
    def data(s): return {"pre": s.pre, "ops": s.ops, "depth": s.depth}
    def cases(s, hists): return [(h, s.case(k, h)) for k, h in enumerate(hists)]
    def case(s, k, hist): return {"ops": s.pre + [o for i in hist for o in s.ops[i - 1].get("do", [s.ops[i - 1]])] + s.tail(k)}

V = lambda r, c, x: {"op": "set_value", "r": r, "c": c, "v": x}
# ------------------------------------------------------------------ alphabets
def a_cells():
    return S([V(0, 0, N(1.0)), V(0, 1, T("a")), V(0, 3, N(2.0)), V(2, 0, T("b")), V(2, 2, N(3.0)), {"op": "set_formula", "r": 2, "c": 2, "f": "of:=1"},
              {"op": "set_cellstyle", "r": 0, "c": 2, "st": "ce1"}, {"op": "set_repeat", "r": 0, "c": 0, "n": 3}, {"op": "set_row_repeat", "i": 0, "n": 2},
              {"op": "set_row_repeat", "i": 1, "n": 2}, {"op": "set_row_height", "i": 1, "x": "1cm"}, {"op": "remove_cell", "r": 0, "c": 0, "clip": 0}])
def a_spans():
    return S([V(0, 0, N(1.0)), V(0, 1, T("a")), V(1, 1, N(2.0)), V(2, 2, T("b")), {"op": "set_row_span", "r": 0, "c": 0, "n": 3}, {"op": "set_col_span", "r": 0, "c": 0, "n": 2},
              {"op": "set_col_span", "r": 0, "c": 1, "n": 2}, {"op": "set_row_span", "r": 1, "c": 1, "n": 2}, {"op": "set_col_span", "r": 1, "c": 1, "n": 3},
              {"op": "set_col_span", "r": 0, "c": 0, "n": 1}, {"op": "set_mx_col_span", "r": 2, "c": 2, "n": 2}, {"op": "set_repeat", "r": 1, "c": 0, "n": 2}, V(1, 4, T("c"))])
def a_rows():
    return S([{"op": "set_row_height", "i": 0, "x": "1cm"}, {"op": "set_row_height", "i": 2, "x": "2cm"}, {"op": "set_rowstyle", "i": 0, "x": "ro1"}, {"op": "set_rowstyle", "i": 2, "x": "ro1"},
              {"op": "set_rowstyle", "i": 3, "x": "ro2"}, {"op": "set_row_visible", "i": 1, "x": "collapse"}, {"op": "set_row_cellstyle", "i": 1, "x": "ce1"}, {"op": "clear_rowstyle", "i": 0},
              V(0, 0, N(1.0)), V(3, 1, T("a")), {"op": "set_row_repeat", "i": 0, "n": 2}])
def a_cols():
    return S([{"op": "set_col_width", "i": 0, "x": "1cm"}, {"op": "set_col_width", "i": 1, "x": "1cm"}, {"op": "set_col_width", "i": 3, "x": "2cm"}, {"op": "set_colstyle", "i": 0, "x": "co1"},
              {"op": "set_colstyle", "i": 2, "x": "co1"}, {"op": "set_colstyle", "i": 3, "x": "co2"}, {"op": "set_col_visible", "i": 1, "x": "collapse"}, {"op": "set_col_cellstyle", "i": 1, "x": "ce1"},
              {"op": "clear_colstyle", "i": 0}, V(0, 0, N(1.0)), V(1, 2, T("a"))])
def a_form():
    return S([{"op": "set_header_rows", "lo": 0, "hi": 1}, {"op": "set_header_rows", "lo": 2, "hi": 4}, {"op": "set_header_cols", "lo": 1, "hi": 2}, {"op": "add_row_group", "lo": 0, "hi": 3},
              {"op": "add_row_group", "lo": 1, "hi": 2}, {"op": "add_row_group", "lo": 3, "hi": 5}, {"op": "disp_row_group", "lo": 1, "hi": 2, "x": False}, {"op": "add_col_group", "lo": 0, "hi": 2},
              {"op": "add_col_group", "lo": 2, "hi": 2}, {"op": "disp_col_group", "lo": 0, "hi": 2, "x": False}, {"op": "remove_row_group", "lo": 0, "hi": 3}, V(1, 1, N(1.0)), V(5, 3, T("x"))])
def a_edit():
    full = {"v": T("n"), "f": ["of:=2"], "st": ["ce2"], "va": ["val1"], "sp": [2, 2], "mx": [1, 2], "rep": 2, "ann": [], "df": []}
    return S([V(0, 0, N(1.0)), V(0, 0, E0), {"op": "set_styled_value", "r": 0, "c": 0, "v": T("s"), "st": "ce1"}, {"op": "set_formula", "r": 0, "c": 0, "f": "of:=1"}, {"op": "clear_formula", "r": 0, "c": 0},
              {"op": "clear_cellstyle", "r": 0, "c": 0}, {"op": "set_validation", "r": 0, "c": 0, "va": "val1"}, {"op": "clear_validation", "r": 0, "c": 0}, {"op": "set_row_span", "r": 0, "c": 0, "n": 2},
              {"op": "set_repeat", "r": 0, "c": 0, "n": 2}, {"op": "remove_cell", "r": 0, "c": 0, "clip": 0}, {"op": "copy_cell", "r": 0, "c": 0, "clip": 0}, {"op": "add_cell", "r": 1, "c": 1, "clip": 0},
              {"op": "add_new_cell", "r": 0, "c": 0, "x": full}])
def tail_cells(k): return S([{"op": "q_cell", "r": r, "c": c} for r in (0, 1) for c in (0, 1)]) + [q_book(0, PR, PC)]
def a_list():
    o = [{"op": "push", "x": "A"}, {"op": "push", "x": "B"}, {"op": "insert", "i": 0, "x": "C"}, {"op": "insert", "i": 2, "x": "A"}, {"op": "remove", "i": 0, "to": 0}, {"op": "remove", "i": 1},
         {"op": "detach", "i": 0, "to": 5}, {"op": "attach", "from": 5}, {"op": "push_free", "from": 0}, {"op": "clone", "i": 0, "to": 0}, {"op": "set_name", "s": 0, "x": "N"}, {"op": "set_value", "s": 1, "r": 0, "c": 0, "v": N(1.0)},
         {"op": "set_value", "d": 5, "r": 1, "c": 0, "v": N(2.0)}]
    return [dict(x, b=0) for x in o]
def tail_list(k):
    return [{"op": "q_names", "b": 0}, {"op": "sheet_idx", "b": 0, "x": "A"}, {"op": "sheet_idx", "b": 0, "x": "N"}, q_book(0, PR, PC)] + tail_cycle(k)[1:]
def a_iter(): return S([V(0, 0, N(1.0)), V(0, 2, N(2.0)), V(1, 1, N(3.0)), V(2, 0, T("a")), V(3, 3, T("b")), V(3, 1, T("c"))])
BND = [["un", 0, 0]] + [[k, r, c] for k in ("inc", "exc") for r, c in ((0, 0), (0, 2), (1, 1), (2, 0), (2, 3), (3, 3), (5, 5))]
def valid_bounds(kind, lo, hi):
    if lo[0] == "exc": return False
    if lo[0] == "un" or hi[0] == "un": return True
    # reversed ranges are refused by the ordered map the sheet is built on
    return (lo[1], lo[2]) <= (hi[1], hi[2]) and not (kind in ("rows", "cols") and (lo[1] > hi[1] or lo[2] > hi[2]))
def tail_iter(k):
    out = [{"op": "q_iter", "kind": x, "lo": BND[0], "hi": BND[0]} for x in ("iter", "into", "peek")]
    g = G(k * 7919 + 13)
    n = 0
    while n < 10:
        kind, lo, hi = g.pick(["rows", "cols", "range"]), g.pick(BND), g.pick(BND)
        if kind == "cols" and (hi[0] == "un"): continue        # column-wise iteration of everything walks all columns
        if valid_bounds(kind, lo, hi): out.append({"op": "q_iter", "kind": kind, "lo": lo, "hi": hi}); n += 1
    return S(out)

# ------------------------------------------------------------------ seeded programs
def grid(F, n=14, sheets=(1, 1, 2), cycles=(1, 1, 2), big=0.0):
    F = set(F.split())
    return lambda g: grid_case(g, F | {"cell"} if "nocell" not in F else F, g.r.randint(2, n), g.pick(sheets), g.pick(cycles), g.p(big))
def table_case(F, modes=True):
    F = set(F.split())
    def mk(g):
        if "long" in F: g.long = False      # thousands of cells
        fmt, data = odsmk.table_file(g, F, g.pick([1, 1, 2]))
        pr, pc = list(range(0, 14)), list(range(0, 12))
        if "long" in F: pr += [998, 999, 1000, 1001, 1002, 1003, 1004, 1006, 1500, 1501, 1502, 1998, 1999, 2000, 2001, 2002]; pc += [1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1499, 1500, 1501, 2000]
        ops = [{"op": "put_file", "file": "f", "fmt": fmt, "b64": B64(data)}]
        ops.append({"op": "load", "b": 0, "fmt": fmt, "via": g.pick(LOADS[fmt]), "file": "f", "prow": pr, "pcol": pc, "facts": False})
        if modes:
            for b, o in ((1, ["repeat"]), (2, ["noempty"]), (3, ["repeat", "noempty"]), (4, ["content"]), (5, ["clone", "empty", "styles"])):
                if g.p(0.6): ops.append({"op": "load", "b": b, "fmt": fmt, "via": "opt", "opts": o, "file": "f", "prow": pr, "pcol": pc, "facts": False})
        ops.append(q_book(0, pr, pc))
        sv = save(g, 0, "f2")
        ops += [sv, load(g, sv, 9, pr, pc)]
        return {"ops": ops}
    return mk
def edit_loaded(F, E):
    """a document from elsewhere is read, edited, saved and read again"""
    F, E = set(F.split()), set(E.split())
    def mk(g):
        fmt, data = odsmk.table_file(g, F, 1)
        pr, pc = list(range(0, 14)), list(range(0, 12))
        ops = [{"op": "put_file", "file": "f", "fmt": fmt, "b64": B64(data)},
               {"op": "load", "b": 0, "fmt": fmt, "via": g.pick(LOADS[fmt]), "file": "f", "prow": pr, "pcol": pc, "facts": False}] + styles()
        a = Area(g)
        a.R, a.C = [0, 1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4]
        for _ in range(g.r.randint(1, 8)):
            w = []
            if "attr" in E: w += ["a"] * 3
            if "cell" in E: w += ["c"]
            if E & {"hdr", "grp", "lvl", "cfg"}: w += ["f"]
            t = g.pick(w)
            o = attr_edit(g, a, E) if t == "a" else cell_edit(g, a, E) if t == "c" else form_edit(g, a, E)
            ops.append(dict(o, b=0, s=0))
        ops.append(q_book(0, pr, pc))
        sv = save(g, 0, "f2")
        return {"ops": ops + [sv, q_book(0, pr, pc), load(g, sv, 1, pr, pc)]}
    return mk
def list_case(g):
    """random sheet list histories with contents"""
    ops = [{"op": "new", "b": 0}] + styles()
    n, det, free, k = 0, {}, {}, 0
    names = ["A", "B", "C", "x y", "D'q", "1"]
    for _ in range(g.r.randint(4, 18)):
        t = g.pick(["push", "push", "insert", "remove", "detach", "attach", "clone", "clone_no_data", "push_free", "insert_free", "set", "set", "name", "lvl", "idx", "names", "bad"])
        i = g.r.randrange(n) if n else 0
        holes = set(x[0] for x in det.values())
        if t == "push": ops.append({"op": "push", "b": 0, "x": g.pick(names)}); n += 1
        elif t == "insert" and len(det) < 1: j = g.r.randint(0, n + (1 if g.p(0.1) else 0)); ops.append({"op": "insert", "b": 0, "i": j, "x": g.pick(names)}); n += j <= n
        elif t == "remove" and n and len(det) < 1:
            ops.append({"op": "remove", "b": 0, "i": i, "to": k}); free[k] = 1; k += 1; n -= 1
        elif t == "detach" and n and i not in holes and len(det) < 1: ops.append({"op": "detach", "b": 0, "i": i, "to": k}); det[k] = (i,); k += 1
        elif t == "attach" and det: d = g.pick(det); ops.append({"op": "attach", "b": 0, "from": d}); del det[d]
        elif t in ("clone", "clone_no_data") and n: ops.append({"op": t, "b": 0, "i": i, "to": k}); free[k] = 1 if i not in holes else 0; free = {a: b for a, b in free.items() if b}; k += 1
        elif t == "push_free" and free: d = g.pick(free); ops.append({"op": t, "b": 0, "from": d}); del free[d]; n += 1
        elif t == "insert_free" and free and len(det) < 1: d = g.pick(free); j = g.r.randint(0, n); ops.append({"op": t, "b": 0, "from": d, "i": j}); del free[d]; n += 1
        elif t == "set":
            tgt = {"d": g.pick(list(det) + list(free))} if (det or free) and g.p(0.5) else {"s": g.r.randint(0, n)} if n else None
            if tgt: ops.append(dict(g.pick([V(g.pick([0, 1]), g.pick([0, 1]), g.value(["num", "text"])), {"op": "set_row_height", "i": 1, "x": "1cm"}, {"op": "set_col_width", "i": 1, "x": "2cm"}]), b=0, **tgt))
        elif t == "name" and n: ops.append({"op": "set_name", "b": 0, "s": i, "x": g.pick(names)})
        elif t == "lvl" and n:
            for _ in range(g.pick([1, 1, 2, 4, 6])): ops.append(dict(form_edit(g, Area(g), {"lvl"}), b=0, s=i))
        elif t == "idx": ops.append({"op": "sheet_idx", "b": 0, "x": g.pick(names)})
        elif t == "names": ops.append({"op": "q_names", "b": 0})
        elif t == "bad": ops.append(g.pick([{"op": "remove", "b": 0, "i": n + 3}, {"op": "detach", "b": 0, "i": n, "to": 99}, {"op": "set_value", "b": 0, "s": n, "r": 0, "c": 0, "v": N(1.0)}, {"op": "insert", "b": 0, "i": n + 2, "x": "Z"}]))
    for d in list(det): ops.append({"op": "attach", "b": 0, "from": d})
    ops += [{"op": "q_names", "b": 0}, q_book(0, PR, PC)]
    sv = save(g, 0, "f")
    return {"ops": ops + [sv, q_book(0, PR, PC), load(g, sv, 1, PR, PC)]}
def nest_case(g):
    """groups within groups, many of them with a common first or last line, added in any order"""
    ops, pr, pc = list(PRE1), set(), set()
    for ax, f in (("row", pr), ("col", pc)):
        spans = set()
        def sub(lo, hi, d):
            if lo > hi or d > 6: return
            if g.p(0.85): spans.add((lo, hi))
            t = g.pick(["first", "last", "both", "split", "in"])
            if t == "first": sub(lo, hi - g.pick([1, 2]), d + 1)
            elif t == "last": sub(lo + g.pick([1, 2]), hi, d + 1)
            elif t == "in": sub(lo + 1, hi - 1, d + 1)
            elif lo < hi:
                m = g.r.randint(lo, hi - 1)
                sub(lo, m, d + 1); sub(m + 1 + (t == "both"), hi, d + 1)
        b = g.pick([0, 0, 1, 3])
        sub(b, b + g.r.randint(1, 9), 0)
        spans = list(spans); g.r.shuffle(spans)
        hid = [x for x in spans if g.p(0.4)]
        E = [{"op": "add_%s_group" % ax, "lo": lo, "hi": hi} for lo, hi in spans]
        D = [{"op": "flag_col_group" if ax == "col" and g.p(0.4) else "disp_%s_group" % ax, "lo": lo, "hi": hi, "x": False} for lo, hi in hid]
        if spans and g.p(0.3): x = g.pick(spans); D.append({"op": "disp_%s_group" % ax, "lo": x[0], "hi": x[1], "x": True})
        if spans and g.p(0.2): x = g.pick(spans); D.append({"op": "remove_%s_group" % ax, "lo": x[0], "hi": x[1]})
        if g.p(0.4): lo = g.r.randint(0, b + 4); D.append({"op": "set_header_%ss" % ax, "lo": lo, "hi": lo + g.pick([0, 1, 3])})
        ops += [dict(o, b=0, s=0) for o in E + D]
        f.update(range(0, b + 13)); f.update(x + d for y in spans for x in y for d in (-1, 0, 1) if x + d >= 0)
    a = Area(g)
    for _ in range(g.pick([0, 0, 1, 3])): ops.append(dict(V(g.r.randint(0, 12) if g.p(0.7) else g.pick(sorted(pr)), g.r.randint(0, 9) if g.p(0.7) else g.pick(sorted(pc)), g.value()), b=0, s=0))
    pr, pc = sorted(pr), sorted(pc)
    sv = save(g, 0, "f"); sv2 = save(g, 1, "f2")
    return {"ops": ops + [q_book(0, pr, pc), sv, load(g, sv, 1, pr, pc), sv2, load(g, sv2, 2, pr, pc)]}
def share_case(g):
    """sheets whose rows and columns share styles but not heights and widths"""
    ops, n = list(PRE1), g.pick([2, 2, 3])
    ops += [{"op": "push", "b": 0, "x": "S%d" % i} for i in range(1, n)]
    L = g.r.sample(LENS, 2) if g.p(0.7) else LENS
    for _ in range(g.r.randint(3, 10)):
        s, i = g.r.randrange(n), g.pick([0, 1, 2, 4])
        for ax, sty, sz in (("row", ROWST, "height"), ("col", COLST, "width")):
            if g.p(0.4): continue
            if g.p(0.8): ops.append({"op": "set_%sstyle" % ax, "b": 0, "s": s, "i": i, "x": g.pick(sty[:2])})
            if g.p(0.8): ops.append({"op": "set_%s_%s" % (ax, sz), "b": 0, "s": s, "i": i, "x": g.pick(L)})
    for s in range(n):
        if g.p(0.5): ops.append(dict(V(g.pick([0, 1, 5]), g.pick([0, 2]), g.value(["num", "text"])), b=0, s=s))
    sv, sv2 = save(g, 0, "f"), save(g, g.pick([0, 1]), "f2")
    return {"ops": ops + [q_book(0, PR, PC), sv, q_book(0, PR, PC), load(g, sv, 1, PR, PC), sv2, load(g, sv2, 2, PR, PC)]}
def iter_case(g):
    a = Area(g, g.p(0.2))
    ops = PRE1 + [dict(V(a.rowx(), a.colx(), g.value(["num", "text", "empty"])), b=0, s=0) for _ in range(g.r.randint(0, 14))]
    for _ in range(12):
        kind = g.pick(["iter", "into", "peek", "rows", "rows", "cols", "cols", "range", "range"])
        lo = g.pick([["un", 0, 0], ["inc", a.rowx(), a.colx()], ["inc", a.rowx(), a.colx()]])
        hi = g.pick([["un", 0, 0], ["inc", a.rowx(), a.colx()], ["exc", a.rowx(), a.colx()]])
        if kind == "cols" and (hi[0] == "un" or hi[1] > 3000): continue
        if kind in ("iter", "into", "peek") or valid_bounds(kind, lo, hi): ops.append({"op": "q_iter", "b": 0, "s": 0, "kind": kind, "lo": lo, "hi": hi})
    return {"ops": ops}
def edit_case(g):
    """in-memory editing with queries after every few steps, clones included"""
    ops = PRE1 + [{"op": "push", "b": 0, "x": "S2"}]
    a = Area(g)
    a.R, a.C = a.R[:3], a.C[:3]
    F = {"cell", "clear", "span", "mx", "rep", "rich", "zero"}
    for i in range(g.r.randint(4, 24)):
        t = g.r.random()
        s = g.pick([0, 0, 1])
        if t < 0.7:
            o = dict(cell_edit(g, a, F), b=0, s=s)
            # a refused edit may leave an empty cell: ask for it only where a cell is
            if o.get("n") == 0: ops.append(dict(V(o["r"], o["c"], N(5.0)), b=0, s=s))
            ops.append(o)
        elif t < 0.8: ops.append(dict(attr_edit(g, a, F), b=0, s=s))
        elif t < 0.9: ops.append({"op": "q_cell", "b": 0, "s": s, "r": a.rowx(), "c": a.colx()})
        elif t < 0.95:
            # a copy of a sheet with everything a sheet can carry
            ops += [dict(form_edit(g, a, {"hdr", "grp", "lvl", "cfg"}), b=0, s=s) for _ in range(g.r.randint(0, 3))]
            if g.p(0.5): ops.append(dict(sheet_setting(g), b=0, s=s))
            ops += [{"op": g.pick(["clone", "clone_no_data"]), "b": 0, "i": s, "to": 7}, dict(cell_edit(g, a, F - {"zero"}), d=7), {"op": "q_sheet", "d": 7, "prow": a.probes()[0], "pcol": a.probes()[1]}]
        else: ops.append(dict(form_edit(g, a, {"hdr", "grp", "lvl", "cfg"}), b=0, s=s))
    for r in a.R:
        for c in a.C: ops.append({"op": "q_cell", "b": 0, "s": 0, "r": r, "c": c})
    ops.append(q_book(0, *a.probes()))
    return {"ops": ops}

# property -> (models(quick), models(thorough), [(generator, quick count, thorough count)], facts?)
class Profile:
    def __init__(s, models, deep, gens, facts=False, limit_ms=20000): s.models, s.deep, s.gens, s.facts, s.limit_ms = models, deep, gens, facts, limit_ms
ALL = {}
NOTES = {}
ALL["P01"] = Profile([Model("cells", PRE1, a_cells(), 3)], [Model("cells", PRE1, a_cells(), 4), Model("spans", PRE1, a_spans(), 4)],
    [(grid("clear span mx", 16), 100, 3000), (grid("clear rep rowrep", 14), 100, 3000), (packed_case, 60, 2000), (grid("clear", 14, big=1.0), 60, 1500), (grid("clear span attr hdr grp lvl", 16, cycles=(2, 3)), 60, 2000)])
ALL["P02"] = Profile([Model("spans", PRE1, a_spans(), 3)], [Model("spans", PRE1, a_spans(), 4), Model("cells", PRE1, a_cells(), 4)],
    [(grid("clear span mx attr", 16), 120, 3000), (grid("clear rep rowrep attr", 14), 80, 3000), (packed_case, 120, 3000), (grid("clear rich", 10), 60, 1500), (grid("clear attr hdr grp", 14, big=0.6), 60, 1500)])
ALL["P03"] = Profile([], [], [(table_case("ws grp wrap hdr"), 220, 5000), (table_case("ws span"), 120, 3000), (table_case("ws grp hdr tail big"), 60, 1500), (table_case("ws long"), 20, 600), (table_case("dcs"), 60, 2000), (table_case("ws rich calcext"), 60, 2000)])
ALL["P04"] = Profile([Model("rows", PRE1, a_rows(), 3), Model("cols", PRE1, a_cols(), 3)], [Model("rows", PRE1, a_rows(), 4), Model("cols", PRE1, a_cols(), 4)],
    [(grid("attr clear", 18, cycles=(1, 2)), 90, 3000), (grid("attr nocell", 14), 60, 2000), (edit_loaded("ws grp hdr", "attr cell"), 120, 3000), (grid("attr rowrep", 12), 50, 1500), (share_case, 60, 2000)])
ALL["P05"] = Profile([Model("form", PRE1, a_form(), 3)], [Model("form", PRE1, a_form(), 4)],
    [(grid("hdr grp", 18), 150, 4000), (grid("hdr grp attr", 18, cycles=(1, 2)), 100, 3000), (edit_loaded("ws grp hdr wrap", "attr cell hdr grp"), 80, 2000), (nest_case, 100, 3000)])
ALL["P09"] = Profile([Model("edit", PRE1, a_edit(), 3, tail_cells)], [Model("edit", PRE1, a_edit(), 4, tail_cells)], [(edit_case, 600, 12000)])
ALL["P10"] = Profile([Model("iter", PRE1, a_iter(), 4, tail_iter)], [Model("iter", PRE1, a_iter(), 6, tail_iter, 40000)], [(iter_case, 800, 15000)])
ALL["P11"] = Profile([Model("list", [{"op": "new", "b": 0}], a_list(), 3, tail_list)], [Model("list", [{"op": "new", "b": 0}], a_list(), 4, tail_list)], [(list_case, 450, 10000)])
def ref_all(g):
    """every column name of one and two letters and the borders of longer ones; every macro combination"""
    ops = [{"op": "ref_name", "x": str(i)} for i in list(range(0, 760)) + [16383, 18277, 18278, 18279, 475253, 475254, 475255]]
    import itertools
    for tab in (False, True):
        for n in (2, 4):
            for ab in itertools.product("01", repeat=n): ops.append({"op": "ref_macro", "tab": tab, "t": "T x" if tab else "", "ab": "".join(ab), "n": [3, 27, 9, 53][:n]})
    for f in FNS:
        for t in ("", "T x"):
            n = [3, 27] if f.startswith("fcell") else [3, 27, 9, 53]
            ops.append({"op": "ref_fn", "f": f + ("_table" if t else ""), "m": f[-1] if f[-2:] in ("fr", "fc", "fa") else "", "t": t, "n": n})
    for k, n in (("cell", 2), ("cells", 4), ("cols", 2), ("rows", 2)):
        for ab in itertools.product(["", "$"], repeat=n):
            for i in ("", "u v.ods"):
                for t in NAMES:
                    v = [a + str(x) for a, x in zip(ab, [4, 28, 7, 60])]
                    w = [i, t] + (v if k == "cell" else v[:2] + ["" if len(t) % 2 else t] + v[2:] if k == "cells" else [v[0], t if len(t) % 2 else "", v[1]])
                    ops.append({"op": "ref", "kind": k, "v": w})
    return [{"ops": ops[i:i + 200]} for i in range(0, len(ops), 200)]
ALL["P08"] = Profile([], [], [(ref_all, 1, 1), (ref_case, 700, 20000)])
import profiles_io
import profiles_reg
import profiles_text
import profiles_set
