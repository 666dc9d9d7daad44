"""Programs about typed setters (P23), number formats (P24) and value conversions (P25)."""
from gen import *
from profiles import *
import setters as ST

class Calls:
    """sequences of setter calls on new objects; a case executes a batch of them"""
    module = "SetGen"
    def __init__(s, name, depth, one, batch=60, sample=None, kinds=None):
        s.name, s.depth, s.batch, s.sample = name, depth, batch, sample
        s.ops = []
        for k in kinds or ST.KINDS:
            c = ST.calls(k)
            if one:                                   # one call per setter
                seen, l = set(), []
                for x in c[::-1]:
                    if x[0] not in seen: seen.add(x[0]); l.append(x)
                c = l[::-1]
            s.ops.append({"k": k, "calls": c})
    def data(s): return {"kinds": s.ops, "depth": s.depth}
    def op(s, h):
        k = s.ops[h[0] - 1]
        return {"op": "setters", "k": k["k"], "calls": [k["calls"][i - 1] for i in h[1:]]}
    def cases(s, hists): return [("calls %d.." % i, {"ops": [s.op(h) for h in hists[i:i + s.batch]]}) for i in range(0, len(hists), s.batch)]
def rnd_setters(g):
    """longer sequences of calls with random arguments on objects of every kind"""
    ops = []
    for _ in range(12):
        k = g.pick(list(ST.KINDS))
        rows = [r for r in ST.ROWS if r[0] == k]
        few = g.r.sample(rows, min(len(rows), g.pick([2, 4, 30])))
        calls = []
        for _ in range(g.r.randint(2, 25)):
            r = g.pick(few)
            calls.append([r[1].replace(".", "_"), [g.pick(ST.values(t, r[1])) for t in r[4]]])
        ops.append({"op": "setters", "k": k, "calls": calls})
    return {"ops": ops}
def rnd_tags(g):
    l = list(ST.TEXTTAGS)
    ops = [{"op": "texttag", "t": t, "ops": [["t", "x"], ["e", g.pick(l)], ["t", "<y"]][:k]} for t in l for k in range(4)]
    for _ in range(40): ops.append({"op": "texttag", "t": g.pick(l), "ops": [["t", g.word() or "w"] if g.p(0.5) else ["e", g.pick(l)] for _ in range(g.r.randint(0, 8))]})
    return {"ops": ops}
ALL["P23"] = Profile([Calls("single calls", 1, False, 120)], [Calls("pairs of setters", 2, True, 200)], [(rnd_tags, 1, 20), (rnd_setters, 120, 3000)])

# ------------------------------------------------------------------ number formats
def part_options(p): return [(o, [ST.values(t, "") for t in o[1]]) for o in ST.PARTS[p][1]]
def one_option(g, o, vs):
    pre = "" if g.p(0.5) else g.pick("+-")
    return [pre + o[0], [g.pick(v) for v in vs]]
def rnd_part(g, k):
    if g.p(0.35):
        f = g.pick(ST.FPUSH[k])
        return [f, [["", [g.pick(ST.values(t, "")) for t in ST.PUSH[f]]]]]
    p = g.pick(ST.FPARTS[k])
    po = part_options(p)
    l = [one_option(g, *g.pick(po)) for _ in range(g.r.randint(0, 6))] if po else []
    if [x for x in l if x[0].lstrip("+-") == "locale"][1:]: l = [x for x in l if x[0].lstrip("+-") != "locale"]
    return [p, l]
def rnd_format(g):
    ops = []
    for _ in range(20):
        k = g.pick(list(ST.FPARTS))
        ops.append({"op": "format", "k": k, "parts": [rnd_part(g, k) for _ in range(g.r.randint(0, 9))]})
    return {"ops": ops}
def all_options(g):
    """every option of every part builder with every value, and every one-step call, in every format that has it"""
    out = []
    for k, ps in ST.FPARTS.items():
        parts = []
        for p in ps:
            parts.append([p, []])
            for o, vs in part_options(p):
                base = [v[min(1, len(v) - 1)] for v in vs]
                for pre in ("", "+", "-"):
                    if not vs: parts.append([p, [[pre + o[0], []]]])
                    for i, v in enumerate(vs): parts += [[p, [[pre + o[0], base[:i] + [x] + base[i + 1:]]]] for x in v]
        for f in ST.FPUSH[k]:
            vs = [ST.values(t, "") for t in ST.PUSH[f]]
            base = [v[min(1, len(v) - 1)] for v in vs]
            if not vs: parts.append([f, [["", []]]])
            for i, v in enumerate(vs): parts += [[f, [["", base[:i] + [x] + base[i + 1:]]]] for x in v]
        out += [{"op": "format", "k": k, "parts": parts[i:i + 8]} for i in range(0, len(parts), 8)]
    out += [{"op": "locale", "l": l} for l in ST.LOC + [["cs", "", "CZ"], ["en", "", ""], ["de", "", "DE"]] if l != ["und", "", ""]]
    for f, ts in ST.READY.items():
        vs = [ST.values(t, "") for t in ts]
        base = [v[min(1, len(v) - 1)] for v in vs]
        if not vs: out.append({"op": "ready", "f": f, "a": []})
        for i, v in enumerate(vs): out += [{"op": "ready", "f": f, "a": base[:i] + [x] + base[i + 1:]} for x in v]
    return {"ops": out}
ALL["P24"] = Profile([], [], [(all_options, 1, 1), (rnd_format, 120, 2000)])

# ------------------------------------------------------------------ conversions of values (P25)
import struct
from decimal import Decimal
def exact(x):
    if x != x: return "nan"
    if x in (float("inf"), float("-inf")): return "inf" if x > 0 else "-inf"
    t = format(Decimal(x), "f")
    t = t.rstrip("0").rstrip(".") if "." in t else t
    return t
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
BOUNDS = {"i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i8": (-128, 127), "u8": (0, 255)}
FLOATS = [0.0, -0.0, 0.5, -0.5, 0.99, -0.99, 1.0, -1.0, 1.5, -1.5, 127.9, 128.0, -128.9, -129.0, 255.0, 255.5, 256.0, 32767.5, 32768.0, -32768.5, -32769.0, 65535.9, 65536.0, 2147483647.5, 2147483648.0,
          -2147483648.5, -2147483649.0, 4294967295.5, 4294967296.0, 2.0**53, 2.0**53 + 2, 2.0**63, 2.0**63 - 1024, -2.0**63, -2.0**63 - 2048, 2.0**64, 2.0**64 - 2048, 1e300, -1e300, 5e-324, 0.1, 1e15, 123456.789,
          float("nan"), float("inf"), float("-inf")]
DEF = {"int": "7", "f64": "2.5", "decimal": "3.25", "str": "dflt", "dt": ["2001", "02", "03", "04", "05", "06", "000000007"], "dur": ["+", "1", "02", "03", "000000004"]}
FORMS = {"str": ["plain", "opt"], "string": ["plain", "opt"], "stringref": ["plain", "opt"], "dt": ["plain", "opt"], "date": ["plain", "opt"], "time": ["plain", "opt"], "dur": ["plain", "opt"], "bool": ["plain", "opt"],
         "decimal": ["plain", "opt"], "unit": ["plain"], "default": ["plain"], "tag": ["plain"], "tags": ["plain"], "pct": ["plain", "macro"], "cur": ["plain", "macro"]}
def sh(x):
    """the shortest decimal, where the decimal type is sure to hold it"""
    if x != x or abs(x) > 1e9 or (x and abs(x) < 1e-6): return []
    t = format(Decimal(repr(x)), "f")
    t = t.rstrip("0").rstrip(".") if "." in t else t
    return ["0" if t == "-0" else t] if len(t.replace("-", "").replace(".", "").lstrip("0")) <= 9 else []
def cv(t, form, x, ex=(), s=(), toks=()):
    return {"op": "conv", "t": t, "form": form, "x": list(x), "ex": list(ex), "sh": list(s), "toks": list(toks), "d": DEF}
def ints(t):
    lo, hi = BOUNDS[t]
    l = {lo, lo + 1, hi, hi - 1, 0, 1, 100}
    if lo < 0: l |= {-1, -100}
    for k in (53, 54, 60, 62):
        for d in (-1, 0, 1, 3, 5):
            l |= {2**k + d, -2**k - d}
    return sorted(x for x in l if lo <= x <= hi)
def cv_int(t, form, x): return cv(t, form, [str(x)], [str(x)] if abs(x) <= 2**53 else [], sh(float(x)))
def cv_float(t, form, x): return cv(t, form, [exact(x)] if t != "cur" else [exact(x), "EUR"], [exact(x)] if t in ("f64", "f32") else [], sh(x))
TOKS = [[["<", "text:p"], [">", ""]], [["<", "text:p"], ["t", "a"], ["<", "text:span"], ["t", " b<"], [">", ""], ["t", "c"], [">", ""]],
        [["<", "text:h"], ["<", "text:span"], ["<", "text:span"], ["t", "x"], [">", ""], [">", ""], ["t", "\u00e9"], [">", ""]]]
TIMES = [["00", "00", "00", "000000000"], ["23", "59", "59", "999999999"], ["12", "30", "07", "000000001"]]
DAYS = [["2024", "02", "29"], ["1899", "12", "30"], ["1970", "01", "01"], ["9999", "12", "31"], ["1", "01", "01"], ["1582", "10", "04"]]
DURS = [["+", "0", "00", "00", "000000000"], ["-", "0", "00", "00", "000000001"], ["+", "30", "59", "59", "999999999"], ["-", "1000", "01", "02", "500000000"]]
STRS = ["", "x", "a\nb", "\n", " ", "<&>\"'", "\u00e9\U0001f600", "1.5", "true"]
DECS = ["0", "1", "-1", "0.1", "-0.25", "123.456", "99999.999", "0.000001", "1000000"]
class Convs:
    """the universe of conversions"""
    module = "ConvGen"
    name, depth, sample = "all conversions", 1, None
    def __init__(s):
        l = []
        def forms(t): return FORMS.get(t, ["plain", "ref", "opt", "optref"])
        def all_forms(t, mk, vals):
            for f in forms(t):
                l.extend(mk(t, f, v) for v in vals)
                if f in ("opt", "optref"): l.append(cv(t, f, []))
        for t in BOUNDS: all_forms(t, cv_int, ints(t))
        for t in ("f64", "pct", "cur"): all_forms(t, cv_float, FLOATS)
        all_forms("f32", cv_float, [f32(x) for x in FLOATS if x != x or abs(x) < 3e38 or x in (float("inf"), float("-inf"))])
        all_forms("decimal", lambda t, f, x: cv(t, f, [x], [exact(float(x))], [x]), DECS)
        all_forms("bool", lambda t, f, x: cv(t, f, [x]), ["true", "false"])
        for t in ("str", "string", "stringref"): all_forms(t, lambda t, f, x: cv(t, f, [x]), STRS)
        all_forms("dt", lambda t, f, x: cv(t, f, x), [d + h for d in DAYS for h in TIMES])
        all_forms("date", lambda t, f, x: cv(t, f, x), DAYS)
        all_forms("time", lambda t, f, x: cv(t, f, x), TIMES)
        all_forms("dur", lambda t, f, x: cv(t, f, x), DURS)
        l += [cv("unit", "plain", []), cv("default", "plain", [])] + [cv("tag", "plain", [], toks=[x]) for x in TOKS]
        l += [cv("tags", "plain", [], toks=x) for x in ([], TOKS[:1], TOKS[:2], TOKS, TOKS[::-1], [TOKS[0], TOKS[0]])]
        s.ops = l
    def data(s): return {"conv": s.ops}
    def cases(s, hists): return [("conversions %d.." % i, {"ops": [s.ops[h[0] - 1] for h in hists[i:i + 100]]}) for i in range(0, len(hists), 100)]
def rnd_conv(g):
    ops = []
    for _ in range(60):
        t = g.pick(list(BOUNDS) + ["f64", "f64", "f32", "pct", "cur", "str", "tags", "dt", "dur"])
        f = g.pick(FORMS.get(t, ["plain", "ref", "opt", "optref"]))
        if t in BOUNDS:
            lo, hi = BOUNDS[t]
            ops.append(cv_int(t, f, max(lo, min(hi, g.r.randint(lo, hi) >> g.r.randint(0, 60)))))
        elif t in ("f64", "pct", "cur"):
            x = g.pick([lambda: g.r.uniform(-300, 300), lambda: g.r.uniform(-1, 1) * 2.0 ** g.r.randint(-20, 70), lambda: g.pick([2.0**k for k in (7, 8, 15, 16, 31, 32, 63, 64)]) * g.pick([1, -1]) + g.pick([-1, -0.5, 0, 0.5, 1]),
                        lambda: round(g.r.uniform(-1000, 1000), g.r.randint(0, 4))])()
            ops.append(cv_float(t, f, x))
        elif t == "f32": ops.append(cv_float(t, f, f32(g.r.uniform(-1, 1) * 2.0 ** g.r.randint(-20, 70))))
        elif t == "str": ops.append(cv(g.pick(["str", "string", "stringref"]), f, ["\n".join(g.text())]))
        elif t == "tags":
            def tree(d):
                l = [["<", g.pick(["text:p", "text:span", "text:h", "text:a"])]]
                for _ in range(g.r.randint(0, 3)):
                    if d and g.p(0.5): l += tree(d - 1)
                    else: l.append(["t", g.word()])
                return l + [[">", ""]]
            ops.append(cv("tags", "plain", [], toks=[tree(3) for _ in range(g.r.randint(0, 4))]))
        elif t == "dt": ops.append(cv("dt", f, g.pick(DAYS) + g.pick(TIMES)))
        else: ops.append(cv("dur", f, g.pick(DURS)))
    return {"ops": ops}
ALL["P25"] = Profile([Convs()], [], [(rnd_conv, 90, 2000)])
