"""The typed setters of the library's objects: what each sets, and argument values for each."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
def lines(f): return [l.split() for l in open(os.path.join(HERE, f)) if l.strip() and l[0] != "#"]
ROWS = [[k, f, p, pat, [] if ty == "-" else ty.split(","), at.split(",")] for k, f, p, pat, ty, at in lines("setters.tbl")]
WORDS = {l[0]: {a.split("=", 1)[0]: a.split("=", 1)[1].replace("_", " ") for a in l[1:]} for l in lines("words.tbl")}
LP = {"Length": "Length", "Percent": "Percent"}
SUMS = {"FontSize": LP, "Margin": LP, "Indent": LP, "LengthPercent": LP, "LineHeight": LP, "LetterSpacing": {"Length": "Length"},
        "LineWidth": {"Percent": "Percent", "Int": "u32", "Length": "Length"}, "GlyphOrientation": {"Angle": "Angle"},
        "TextPosition": {"Percent": "Percent"}, "RelativeScale": {"Percent": "Percent"}, "PageNumber": {"Number": "u32"},
        "HyphenationLadderCount": {"Count": "u32"}, "StyleNumFormat": {"Text": "str"}}
def st(ty, *parts): return (ty, ty + '::new("x")', ["attr"] + list(parts))
def fm(ty): return (ty, ty + '::new_named("x")', ["attr", "textstyle"])
KINDS = {"cell": ("CellStyle", 'CellStyle::new_empty()', ["attr", "cellstyle", "paragraphstyle", "textstyle"]), "col": st("ColStyle", "colstyle"), "row": st("RowStyle", "rowstyle"),
         "table": st("TableStyle", "tablestyle"), "para": st("ParagraphStyle", "paragraphstyle", "textstyle"), "text": st("TextStyle", "textstyle"),
         "ruby": st("RubyStyle", "rubystyle"), "graphic": st("GraphicStyle", "graphicstyle", "paragraphstyle", "textstyle"),
         "font": st("FontFaceDecl"), "page": ("PageStyle", 'PageStyle::new("x")', ["style", "headerstyle", "footerstyle", "usage"]),
         "tab": ("TabStop", "TabStop::new()", ["attr"]), "annot": ("Annotation", "Annotation::new_empty()", ["attr"]), "frame": ("DrawFrame", "DrawFrame::new()", ["attr"]), "image": ("DrawImage", "DrawImage::new()", ["attr"]),
         "fbool": fm("ValueFormatBoolean"), "fnum": fm("ValueFormatNumber"), "fperc": fm("ValueFormatPercentage"), "fcurr": fm("ValueFormatCurrency"),
         "ftext": fm("ValueFormatText"), "fdate": fm("ValueFormatDateTime"), "ftime": fm("ValueFormatTimeDuration"),
         "h": ("TextH", "TextH::new()", ["tag"]), "p": ("TextP", "TextP::new()", ["tag"]), "span": ("TextSpan", "TextSpan::new()", ["tag"]),
         "a": ("TextA", "TextA::new()", ["tag"]), "s": ("TextS", "TextS::new()", ["tag"]), "tabtag": ("TextTab", "TextTab::new()", ["tag"])}
# getter, part, attributes, converter (first attribute absent: all empty)
FG = [("locale", "attr", ["number:language", "number:script", "number:country"], "loc"),
      ("transliteration_locale", "attr", ["number:transliteration-language", "none", "number:transliteration-country"], "loc"),
      ("title", "attr", ["number:title"], "str"), ("transliteration_format", "attr", ["number:transliteration-format"], "opt"),
      ("transliteration_style", "attr", ["number:transliteration-style"], "res"), ("volatile", "attr", ["style:volatile"], "opt")]
AO = ("automatic_order", "attr", ["number:automatic-order"], "opt")
FS = ("format_source", "attr", ["number:format-source"], "res")
GETTERS = {k: FG for k in ("fbool", "fnum", "fperc", "fcurr", "ftext", "fdate", "ftime")}
GETTERS["fcurr"] = FG + [AO]; GETTERS["fdate"] = FG + [AO, FS]
GETTERS["ftime"] = FG + [FS, ("truncate_on_overflow", "attr", ["number:truncate-on-overflow"], "opt")]
GETTERS["row"] = [("row_height", "rowstyle", ["style:row-height"], "len"), ("use_optimal_row_height", "rowstyle", ["style:use-optimal-row-height"], "flag")]
GETTERS["col"] = [("col_width", "colstyle", ["style:column-width"], "len"), ("use_optimal_col_width", "colstyle", ["style:use-optimal-column-width"], "flag")]
GETTERS["page"] = [("page_usage", "usage", ["style:page-usage"], "res")]

# ------------------------------------------------------------------ argument values
UNITS = ["Cm", "Mm", "In", "Pt", "Pc", "Em"]
NUM = ["0", "1", "1.5", "0.25", "12.7", "100", "0.001", "1234567", "0.1", "2.54", "33.333"]
NEG = ["-1", "-0.5", "-2.25"]
TXT = ["x", "A b", "<&>\"'", "\u00e9\U0001f600", "1", "none", "a:b-c"]
LOC = [["de", "", "AT"], ["en", "", "US"], ["fr", "", ""], ["zh", "Hant", "TW"], ["sr", "Latn", ""], ["und", "", ""]]
POS = {"set_padding", "set_padding_bottom", "set_padding_left", "set_padding_right", "set_padding_top", "set_line_height_at_least",
       "set_tab_stop_distance", "set_min_row_height", "set_line_height", "set_min_height"}
def pos(f): return f[2:] in POS or f in POS or f.replace(".", "_")[2:] in POS or "margin" in f or "font_size" in f or "font_attr" in f
def values(t, f, g=None):
    """all interesting values of a type (lists of strings); with g one random value"""
    t = t.replace("&", "")
    num = NUM if pos(f) else NUM + NEG
    def L(): return [[u, n] for u in UNITS for n in (num if g is None else num)]
    if t == "Length":
        r = [[u, n] for u in UNITS for n in num[:4]] + [["Cm", n] for n in num]
        if f in ("set_row_height", "set_col_width"): r += [["Default"]]
        return r
    if t == "?Length": return [[]] + values("Length", f)[:8]
    if t == "?Percent": return [[]] + values("Percent", f)[:8]
    if t == "Percent": return [[n] for n in num]
    if t == "Angle": return [[u, n] for u in ("Deg", "Grad", "Rad") for n in num[:5] + NEG]
    if t == "Rgb": return [["00", "00", "00"], ["ff", "00", "7f"], ["0a", "bc", "10"], ["ff", "ff", "ff"], ["01", "02", "03"]]
    if t == "Locale": return LOC
    if t in ("str", "&str", "S"): return [[x] for x in TXT]
    if t == "char": return [["x"], ["<"], ["\u00e9"], [" "], ["\U0001f600"]]
    if t == "bool": return [["true"], ["false"]]
    if t == "u8": return [["0"], ["1"], ["7"], ["255"]]
    if t == "i64": return [["1"], ["8"], ["100"], ["-3"], ["9223372036854775807"]]
    if t == "i32": return [["0"], ["2"], ["-1"], ["2147483647"]]
    if t == "u32": return [["0"], ["1"], ["7"], ["4294967295"]]
    if t == "f64": return [[n] for n in NUM]
    if t == "CellRef": return [["S.A1"], [".C7"], [".B2"]]
    if t.endswith("Ref"): return [[x] for x in TXT]
    if t.startswith("["):
        it = values(t[1:-1], f)
        it = [x for x in it if " " not in x[0]]
        return [[]] + [[x[0]] for x in it] + [[x[0] for x in it[:3]], [x[0] for x in it[::-1]]]
    r = [[v] for v in WORDS.get(t, {})]
    for v, p in SUMS.get(t, {}).items():
        r += [[v] + x for x in values(p, f)]
    return r
def calls(k, full=True):
    """(setter, arguments) of a kind: every value of every argument"""
    out = []
    for r in ROWS:
        if r[0] != k: continue
        vs = [values(t, r[1]) for t in r[4]]
        base = [v[min(i + 1, len(v) - 1)] for i, v in enumerate(vs)]
        name = r[1].replace(".", "_")
        seen = []
        if not vs: seen.append([])
        for i, v in enumerate(vs):
            for x in v:
                a = base[:i] + [x] + base[i + 1:]
                if a not in seen: seen.append(a)
        out += [[name, a] for a in seen]
    return out

# ------------------------------------------------------------------ parts of number formats
N = "number:"
STYLE = [("long_style", [], "const:long", [N + "style"]), ("short_style", [], "const:short", [N + "style"]), ("style", ["FormatNumberStyle"], "one", [N + "style"])]
CAL = [("calendar", ["FormatCalendarStyle"], "one", [N + "calendar"])]
WORDS["FormatNumberStyle"] = {"Short": "short", "Long": "long"}
WORDS["FormatCalendarStyle"] = {"Gregorian": "gregorian", "Gengou": "gengou", "Roc": "ROC", "Hanja": "hanja", "Hijri": "hijri", "Jewish": "jewish", "Buddhist": "buddhist"}
def u8(f, a): return (f, ["u8"], "one", [N + a])
# builder -> element, options (option, argument types, pattern, attributes)
PARTS = {
    "number": ("number:number", [u8("decimal_places", "decimal-places"), ("fixed_decimal_places", ["u8"], "both", [N + "decimal-places", N + "min-decimal-places"]),
               ("grouping", [], "const:true", [N + "grouping"]), u8("min_decimal_places", "min-decimal-places"), u8("min_integer_digits", "min-integer-digits"),
               ("display_factor", ["f64"], "one", [N + "display-factor"]), ("decimal_replacement", ["char"], "one", [N + "decimal-replacement"]),
               ("embedded_text", ["str", "i32"], "embed", [N + "position"])]),
    "fill_character": ("number:fill-character", [("fill_char", ["char"], "content", [])]),
    "scientific": ("number:scientific-number", [u8("decimal_places", "decimal-places"), u8("expontent_interval", "exponent-interval"),
                   ("forced_exponent_sign", ["bool"], "one", [N + "forced-exponent-sign"]), ("grouping", [], "const:true", [N + "grouping"]),
                   u8("min_decimal_places", "min-decimal-places"), u8("min_exponent_digits", "min-exponent-digits"), u8("min_integer_digits", "min-integer-digits")]),
    "fraction": ("number:fraction", [("denominator", ["i64"], "one", [N + "denominator-value"]), ("grouping", [], "const:true", [N + "grouping"]),
                 ("max_denominator", ["i64"], "one", [N + "max-denominator-value"]), u8("min_denominator_digits", "min-denominator-digits"),
                 u8("min_integer_digits", "min-integer-digits"), u8("min_numerator_digits", "min-numerator-digits")]),
    "currency": ("number:currency-symbol", [("locale", ["Locale"], "part-locale", [N + "language", N + "country", N + "script"]), ("symbol", ["str"], "content", [])]),
    "day": ("number:day", STYLE + CAL), "year": ("number:year", STYLE + CAL), "era": ("number:era", STYLE + CAL),
    "month": ("number:month", STYLE + CAL + [("textual", [], "const:true", [N + "textual"]), ("possessive_form", [], "const:true", [N + "possessive-form"])]),
    "day_of_week": ("number:day-of-week", STYLE + CAL), "week_of_year": ("number:week-of-year", CAL), "quarter": ("number:quarter", STYLE + CAL),
    "hours": ("number:hours", STYLE), "minutes": ("number:minutes", STYLE), "seconds": ("number:seconds", STYLE + [u8("decimal_places", "decimal-places")]),
    "am_pm": ("number:am-pm", []), "boolean": ("number:boolean", []), "text": ("number:text", [("text", ["str"], "content", [])]), "text_content": ("number:text-content", []),
}
NOIF = {"am_pm", "boolean", "text_content"}
FPARTS = {"fbool": ["boolean"], "fnum": ["fill_character", "fraction", "number", "scientific", "text"], "fperc": ["fill_character", "number", "text"],
          "fcurr": ["currency", "fill_character", "number", "text"], "ftext": ["fill_character", "text", "text_content"],
          "fdate": ["am_pm", "day", "day_of_week", "era", "fill_character", "hours", "minutes", "month", "quarter", "seconds", "text", "week_of_year", "year"],
          "ftime": ["am_pm", "fill_character", "hours", "minutes", "seconds", "text"]}
FNS, FCS = "FormatNumberStyle", "FormatCalendarStyle"
PUSH = {"push_boolean": [], "push_fraction": ["i64", "u8", "u8", "u8", "bool"], "push_number": ["u8", "bool"], "push_number_fix": ["u8", "bool"], "push_scientific": ["u8"], "push_text": ["str"],
        "push_currency_symbol": ["Locale", "str"], "push_text_content": [], "push_am_pm": [], "push_day": [FNS], "push_day_of_week": [FNS, FCS], "push_era": [FNS, FCS], "push_hours": [FNS],
        "push_minutes": [FNS], "push_month": [FNS, "bool"], "push_quarter": [FNS, FCS], "push_seconds": [FNS, "u8"], "push_week_of_year": [FCS], "push_year": [FNS]}
FPUSH = {"fbool": ["push_boolean"], "fnum": ["push_fraction", "push_number", "push_number_fix", "push_scientific", "push_text"], "fperc": ["push_number", "push_number_fix", "push_text"],
         "fcurr": ["push_currency_symbol", "push_number", "push_number_fix", "push_text"], "ftext": ["push_text", "push_text_content"],
         "fdate": ["push_am_pm", "push_day", "push_day_of_week", "push_era", "push_hours", "push_minutes", "push_month", "push_quarter", "push_seconds", "push_text", "push_week_of_year", "push_year"],
         "ftime": ["push_am_pm", "push_hours", "push_minutes", "push_seconds", "push_text"]}
READY = {"create_loc_boolean_format": ["Locale"], "create_loc_number_format": ["Locale", "u8", "bool"], "create_loc_number_format_fixed": ["Locale", "u8", "bool"],
         "create_loc_percentage_format": ["Locale", "u8"], "create_loc_currency_prefix": ["Locale", "Locale", "str"], "create_loc_currency_suffix": ["Locale", "Locale", "str"],
         "create_loc_date_dmy_format": ["Locale"], "create_loc_date_mdy_format": ["Locale"], "create_loc_datetime_format": ["Locale"], "create_loc_time_format": ["Locale"],
         "create_loc_time_interval_format": ["Locale"], "create_boolean_format": [], "create_number_format": ["u8", "bool"], "create_number_format_fixed": ["u8", "bool"],
         "create_percentage_format": ["u8"], "create_currency_prefix": ["Locale", "str"], "create_currency_suffix": ["Locale", "str"], "create_date_iso_format": [],
         "create_date_dmy_format": [], "create_date_mdy_format": [], "create_datetime_format": [], "create_time_of_day_format": [], "create_time_interval_format": []}

# ------------------------------------------------------------------ builders of text elements
TEXTTAGS = {"TextH": "text:h", "TextP": "text:p", "TextSpan": "text:span", "TextA": "text:a", "TextS": "text:s", "TextTab": "text:tab", "SoftPageBreak": "text:soft-page-break", "MetaDate": "text:date", "MetaTime": "text:time", "MetaPageNumber": "text:page-number", "MetaAuthorName": "text:author-name", "MetaAuthorInitials": "text:author-initials", "MetaFileName": "text:file-name", "MetaSheetName": "text:sheet-name", "MetaInitialCreator": "text:initial-creator", "MetaCreationDate": "text:creation-date", "MetaCreationTime": "text:creation-time", "MetaDescription": "text:description", "MetaPrintTime": "text:print-time", "MetaPrintDate": "text:print-date", "MetaPrintedBy": "text:printed-by", "MetaTitle": "text:title", "MetaSubject": "text:subject", "MetaKeywords": "text:keywords", "MetaEditingCycles": "text:editing-cycles", "MetaEditingDuration": "text:editing-duration", "MetaModificationTime": "text:modification-time", "MetaModificationDate": "text:modification-date", "MetaCreator": "text:creator", "MetaPageCount": "text:page-count", "MetaCharacterCount": "text:character-count"}
