#!/usr/bin/env python3
"""writes known-findings.json: recorded defects (with the program that shows them) and the record of repaired ones"""
import json, subprocess
FIXED = """8fe69ec P04 equal column headers that are not adjacent were merged
da5b9d5 P04 editing a column inside of a repeated column run changed its neighbours
93cc2a1 P04 splitting a row header overwrote the header of the next row
35a868b P10 column-wise iteration did not end for some ranges, size hints of row-wise iteration were wrong
9050770 P07 negative durations lost their sign and sub-second digits
9d07dca P05 empty rows and columns with own attributes, groups or headers were lost or moved
62a2675 P04 rows and columns that share a style lost their own height or width
74aeba1 P20 a document that ends early made the reader loop forever
d1d9560 P19 errors when opening a part of the package were ignored
cb49c56 P03 expanded/empty forms of row and column elements, empty groups and bad repeat counts were misread
c36e12a P20 spans beyond the last row/column caused an overflow
455e7ad P09 re-adding a removed cell changed its repeat count to 0
d953648 P22 headings and lists in cells were dropped
09cb35f P17 scripts and event listeners were written as invalid elements
6faa8a2 P17 named expressions and conditional formats of a sheet were written outside of its table
74b001c P11 attaching or removing a sheet at a wrong place corrupted the sheet list
00643a6 P13 fonts after the first one of a part were assigned to the other part
c3c9fab P22 nested elements of the same name and CDATA sections were misread
bd779d7 P14 messages of validations moved to other validations
140caaa P19 errors on the last bytes of a flat file were not reported
573d96b P17 namespaces of the other parts were lost in flat files
9a98951 P06 line breaks were inserted inside of carried content of flat files
17f49e3 P06 tabs, line breaks and carriage returns were not escaped
64315a9 P13 flat files lost fonts, and writing one changed the styles
2622395 P08 cell! with a table name was always absolute
4689295 P08 sheet names that need quotes were written without them
e3e8c0d P01 styled empty cells were dropped although their columns do not have that style
3ae1f8c P19 errors of a buffering writer were lost
11c42c7 P22 image data was written without padding and could not be read with line breaks
c106f18 P22 empty paragraphs were lost
c59f5ca P22 frames and annotations without content were not read
2c07015 P12 time formats of some locales were registered under the name of another format
bcfcd41 P15 xlink:actuate was written with a value that cannot be read
b162ce0 P15 meta.xml used undeclared namespaces
d6cefef P16 PageViewZoomValue was not read
1c7d554 P16 a code name that differs from the sheet name was replaced
a2a7a18 P16 binary settings were not escaped
a8b3d16 P16 empty settings were not read
76384d8 P15 the target frame of the hyperlink behaviour was not read
fef8690 P15 template, auto-reload, statistics and user-defined metadata were lost
66102ee P14 a validation without error message got one on reading
377f484 P13 named styles that come from content.xml and lone tab stops were not written
e5959c3 P13 embedded text of number formats was lost
2857707 P13 the default style of a family was replaced by a generated one
4ecaec4 P13 paragraphs of headers and footers lost their attributes
76ca9cb P13 page layouts, master pages, headers and formats without content were not read
7a84e5c P06 the currency symbol was not unescaped on reading
c4d1a86 P06 CDATA sections in number formats and settings were dropped
ee9a57d P23 the word of HyphenationLadderCount::NoLimit was no_limit
f5658b3 P23 set_xml_id wrote an attribute that does not exist
2e7ce14 P23 the outline level of headings was written to an attribute that does not exist
3aff32b P23 condstyle_name wrote an attribute that does not exist
4755ba5 P23 set_font_size_rel wrote an attribute that does not exist
117e9ec P23 transliteration_locale returned the locale
0303e8a P24 min_integer_digits of fractions set the digits of the numerator
3d6464f P23 a default row height was written as an empty attribute
a812fd9 P24 create_loc_currency_prefix added the number twice
151eb2c P23 pc! and em! did not compile
76aaf22 P09 a clone without data lost the view settings of the sheet
e38c0d6 P07 a date-time whose time is 24:00:00 was read as 1970-01-01""".split("\n")
N = {"b": 0, "s": 0}
KNOWN = [{"property": "P22", "status": "known", "what": "a paragraph with attributes but plain text only is read as plain text, its attributes are lost (read_text_or_tag in src/io/read.rs)",
          "ops": [{"op": "new", "b": 0}, {"op": "push", "b": 0, "x": "S"}, dict(N, op="set_value", r=0, c=0, v={"k": "xml", "v": ['["text:p",[["text:style-name","P1"]],["a"]]']}),
                  {"op": "save", "b": 0, "fmt": "ods", "via": "buf", "file": "f"}, {"op": "load", "b": 1, "fmt": "ods", "via": "buf", "file": "f", "prow": [], "pcol": [], "facts": False}]}]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
out = list(KNOWN)
for l in FIXED:
    c, p, w = l.split(" ", 2)
    assert c in log, c
    out.append({"status": "fixed", "entry": "fixed: property=%s %s %s" % (p, c, w)})
fixes = [l.split()[0] for l in log.split("\n") if " fix: " in l]
miss = set(fixes) - {l.split()[0] for l in FIXED}
print("unrecorded fixes:", miss)
json.dump({"findings": out}, open("/verif/known-findings.json", "w"), indent=1, ensure_ascii=False)
