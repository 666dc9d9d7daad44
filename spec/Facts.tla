-------------------------------- MODULE Facts --------------------------------
(***************************************************************************)
(* Everything of a workbook besides its sheets, as facts                   *)
(*   [k |-> kind, n |-> name, u |-> use (named/automatic/default), o |->   *)
(*    part it belongs to, t |-> canonical text of its content, x |-> text  *)
(*    of the row height / column width it carries]                         *)
(* A registry is a set of facts with one fact per kind and name.  A file   *)
(* denotes a set of facts too (read independently); saving and reading     *)
(* relate the two.                                                         *)
(***************************************************************************)
EXTENDS Util, Lexical, Sheet, Settings, Convert

Families == {"st:table", "st:row", "st:col", "st:cell", "st:paragraph", "st:text", "st:ruby", "st:graphic"}
Formats == {"nf:boolean", "nf:number", "nf:percentage", "nf:currency", "nf:text", "nf:date", "nf:time"}
Modelled == Families \cup Formats \cup {"font", "page", "master", "valid", "file", "listener", "script", "meta", "cfg"}
Carried == {"extra", "ns"}            \* kept but not visible to the application
StdFiles == {"/", "content.xml", "styles.xml", "meta.xml", "settings.xml"}
FKey(f) == <<f.k, f.n>>
Fact(k, n, u, o, t, x) == [k |-> k, n |-> n, u |-> u, o |-> o, t |-> t, x |-> x]
FactOf(j) == Fact(j.k, j.n, j.u, j.o, j.t, j.x)
Facts(l) == {FactOf(l[i]) : i \in DOMAIN l}
Visible(RS) == {f \in RS : f.k \in Modelled}
One(S) == CHOOSE x \in S : TRUE
Unique(l) == Cardinality({FKey(l[i]) : i \in DOMAIN l}) = Len(l)
NoBook(e) == e.res # "ok"

(* ---- the registries in memory ---- *)
Reg0(e) == Facts(e.out.facts)
RegAt(RS, k, n) == {f \in RS : f.k = k /\ f.n = n}
Put(RS, f) == (RS \ RegAt(RS, f.k, f.n)) \cup {f}
Arg(e, n) == Fact(e.k, n, Get(e, "u", ""), Get(e, "o", ""), Get(e, "t", ""), Get(e, "x", ""))
Plain0(fam, n) ==
  Fact("st:" \o fam, n, "a", "c", IF fam = "cell" THEN "[[[\"style:data-style-name\",\"\"]],[],[]]" ELSE "[[],[],[]]", IF fam \in {"row", "col"} THEN "[]" ELSE "")
RegOps == {"add_styles", "reg_put", "reg_del", "reg_get", "reg_mod", "set_field"}
Same(exp, got) == IF got = <<>> THEN exp = {} ELSE exp = {FactOf(got[1])}
RegStep(RS, e) ==
  LET fail == IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE <<>>
      nm == IF e.res = "ok" THEN e.out ELSE IF e.n # "" THEN e.n ELSE "(new " \o ToString(Cardinality(RS)) \o ")"
      Rg(S, bad) == [reg |-> S, bad |-> IF fail # <<>> THEN fail ELSE bad]
  IN   CASE e.op = "add_styles" ->
              Rg(FoldSeq(LAMBDA p, a : Put(a, Plain0(p[1], p[2])), RS, e.l), IF e.out # e.l THEN <<"answer", e.op, e.l, e.out>> ELSE <<>>)
         [] e.op = "reg_put" ->
              LET used == RegAt(RS, e.k, nm)
              IN Rg(Put(RS, Arg(e, nm)),
                    IF e.n # "" /\ e.out # e.n THEN <<"stored under another name", e.n, e.out>>
                    ELSE IF e.n = "" /\ (e.out = "" \/ used # {}) THEN <<"name given is not free", e.out>> ELSE <<>>)
         [] e.op = "reg_get" -> Rg(RS, IF Same(RegAt(RS, e.k, e.n), e.out) THEN <<>> ELSE <<"found", e.k, e.n, RegAt(RS, e.k, e.n), e.out>>)
         [] e.op = "reg_del" -> Rg(RS \ RegAt(RS, e.k, e.n), IF Same(RegAt(RS, e.k, e.n), e.out) THEN <<>> ELSE <<"removed", e.k, e.n, RegAt(RS, e.k, e.n), e.out>>)
         [] e.op = "reg_mod" -> Rg(IF RegAt(RS, e.k, e.n) = {} THEN RS ELSE Put(RS, Arg(e, e.n)),
                                   IF Same(RegAt(RS, e.k, e.n), e.out) THEN <<>> ELSE <<"found for change", e.k, e.n, RegAt(RS, e.k, e.n), e.out>>)
         [] e.op = "set_field" -> Rg(IF Get(e, "t", "") = "" /\ e.k # "cfg" THEN RS \ RegAt(RS, e.k, e.n) ELSE Put(RS, Arg(e, e.n)), <<>>)
SetDiff(what, A, G) ==
  IF A = G THEN <<>>
  ELSE IF A \ G # {} THEN LET f == One(A \ G) IN <<what, "expected", f, "found", {g \in G : FKey(g) = FKey(f)}>>
  ELSE <<what, "unexpected", One(G \ A)>>
RegDiff(RS, l) == IF ~Unique(l) THEN <<"listed twice">> ELSE SetDiff("registry", Visible(RS), Facts(l))

(* ---- registries and files ---- *)
\* the one default style of a family has no name in a file; default formats are named formats
Norm(f) ==
  IF f.u = "d" /\ f.k \in Families THEN [f EXCEPT !.n = "(default)"]
  ELSE IF f.u = "d" /\ f.k \in Formats THEN [f EXCEPT !.u = "n"] ELSE f
OwnsLen(f) == f.k \in {"st:row", "st:col"}
Generated(f) == OwnsLen(f) /\ f.u = "a"
Bookkept(f) == f.k = "meta" /\ f.n \in {"generator", "counts"}
\* named and default styles belong to styles.xml; automatic ones and fonts stay in the part they came from
PartOf(f, fmt) == IF fmt # "ods" THEN "" ELSE IF f.k \in Families \cup Formats THEN (IF f.u = "a" THEN f.o ELSE "s") ELSE IF f.k = "font" THEN f.o ELSE ""
Cmp(f, fmt, len) == LET g == Norm(f) IN [g EXCEPT !.o = PartOf(g, fmt), !.x = IF len THEN @ ELSE ""]
UsedRowSt(sheets) == UNION {{x.a.st : x \in sheets[i].rows} : i \in DOMAIN sheets}
UsedColSt(sheets) == UNION {{x.a.st : x \in sheets[i].cols} : i \in DOMAIN sheets}
\* a style used by rows or columns gets its length from them (a style generated on saving may be any automatic one: "*")
OwnLen(f, rst, cst) ==
  LET used == IF f.k = "st:row" THEN rst ELSE cst
  IN OwnsLen(f) /\ <<f.n>> \notin used /\ ~(Generated(f) /\ <<"*">> \in used)

InFile(f, fmt) == f.k \in Modelled \ {"cfg"} /\ ~Bookkept(f) /\ (f.k = "file" => (fmt = "ods" /\ f.n \notin StdFiles))
MaybeInFile(f) == Generated(f) \/ Bookkept(f) \/ f.k \notin Modelled \/ (f.k = "file" /\ f.n = "manifest.rdf")
NsName(n) == LET i == CHOOSE j \in 1..Len(n) : Chr(n, j) = ":" IN SubSeq(n, i + 1, Len(n))
NsPart(n) == LET i == CHOOSE j \in 1..Len(n) : Chr(n, j) = ":" IN SubSeq(n, 1, i - 1)
NsKept(f, F, fmt) ==
  LET part == IF fmt # "ods" THEN "flat" ELSE IF NsPart(f.n) = "flat" THEN "content.xml" ELSE NsPart(f.n)
  IN \E g \in F : g.k = "ns" /\ g.n = part \o ":" \o NsName(f.n) /\ g.t = f.t
FileFactsDiff(bk, doc) ==
  LET RS == bk.reg
      F == Facts(doc.facts)
      rst == UsedRowSt(bk.sheets)
      cst == UsedColSt(bk.sheets)
      cmp(f) == Cmp(f, doc.fmt, OwnLen(f, rst, cst))
      E == {f \in RS : InFile(f, doc.fmt)}
      bad == {f \in E : {cmp(g) : g \in {h \in F : FKey(h) = FKey(Norm(f))}} # {cmp(f)}}
      keys == {FKey(Norm(f)) : f \in E}
      more == {g \in F : ~MaybeInFile(g) /\ FKey(g) \notin keys}
      ext(S) == {<<f.n, f.t>> : f \in {g \in S : g.k = "extra"}}
      lost == {f \in RS : f.k = "ns" /\ ~NsKept(f, F, doc.fmt)}
  IN IF bad # {} THEN LET f == One(bad) IN <<"not in file as set", f, {g \in F : FKey(g) = FKey(Norm(f))}>>
     ELSE IF more # {} THEN <<"in file but never set", One(more)>>
     ELSE IF ext(RS) # ext(F) THEN <<"carried elements", ext(RS), ext(F)>>
     ELSE IF lost # {} THEN <<"namespace lost", One(lost)>>
     ELSE <<>>

(* ---- settings ---- *)
ViewPath == <<"ooo:view-settings", "Views", "0">>
BookCfg == {<<"active_table", "ActiveTable", "string">>, <<"has_sheet_tabs", "HasSheetTabs", "boolean">>,
            <<"show_grid", "ShowGrid", "boolean">>, <<"show_page_breaks", "ShowPageBreaks", "boolean">>}
SheetCfg == {<<"cursor_x", "CursorPositionX", "int">>, <<"cursor_y", "CursorPositionY", "int">>,
             <<"hor_split_mode", "HorizontalSplitMode", "short">>, <<"vert_split_mode", "VerticalSplitMode", "short">>,
             <<"hor_split_pos", "HorizontalSplitPosition", "int">>, <<"vert_split_pos", "VerticalSplitPosition", "int">>,
             <<"active_split_range", "ActiveSplitRange", "short">>, <<"position_left", "PositionLeft", "int">>,
             <<"position_right", "PositionRight", "int">>, <<"position_top", "PositionTop", "int">>, <<"position_bottom", "PositionBottom", "int">>,
             <<"zoom_type", "ZoomType", "short">>, <<"zoom_value", "ZoomValue", "int">>,
             <<"page_view_zoom_value", "PageViewZoomValue", "int">>, <<"show_grid", "ShowGrid", "boolean">>}
TablePath(n) == ViewPath \o <<"Tables", n>>
CodePath(n) == <<"ooo:configuration-settings", "ScriptConfiguration", n, "CodeName">>
ActiveTable(bk) == LET t == One(RegAt(bk.reg, "cfg", "active_table")).t IN IF t = "" THEN bk.sheets[1].name ELSE t
CfgText(bk, n) == IF n = "active_table" THEN ActiveTable(bk) ELSE One(RegAt(bk.reg, "cfg", n)).t
Typed(bk) ==
  {<<Append(ViewPath, c[2]), <<c[3], CfgText(bk, c[1])>>>> : c \in BookCfg}
  \cup UNION {{<<Append(TablePath(bk.sheets[i].name), c[2]), <<c[3], bk.sheets[i].cfg[c[1]]>>>> : c \in SheetCfg} : i \in DOMAIN bk.sheets}
IsContainer(it) == it[2][2] = "" /\ StartsWith(it[2][1], "config-item-")
Kept(bk) == LET ty == {x[1] : x \in Typed(bk)} IN SelectSeq(bk.items, LAMBDA it : it[1] \notin ty)
PathsOf(I) == [i \in DOMAIN I |-> I[i][1]]
ItemsDiff(bk, doc) ==
  LET I == doc.items
      F == ToSet(I)
      ty == Typed(bk)
      kept == Kept(bk)
      K == ToSet(kept)
      codes == {CodePath(bk.sheets[i].name) : i \in DOMAIN bk.sheets}
      known == {x[1] : x \in ty} \cup codes \cup {kept[i][1] : i \in DOMAIN kept}
      inside(p) == \E q \in known : Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
      more == {it \in F : it[1] \notin known /\ ~(IsContainer(it) /\ inside(it[1]))}
  IN IF Cardinality({I[i][1] : i \in DOMAIN I}) # Len(I) THEN <<"setting stored twice">>
     ELSE IF ty \ F # {} THEN LET x == One(ty \ F) IN <<"setting not in file as set", x, {it \in F : it[1] = x[1]}>>
     ELSE IF K \ F # {} THEN LET x == One(K \ F) IN <<"setting not kept", x, {it \in F : it[1] = x[1]}>>
     ELSE IF SelectSeq(PathsOf(I), LAMBDA p : \E i \in DOMAIN bk.items : bk.items[i][1] = p) # PathsOf(bk.items) THEN <<"order of settings", bk.items, I>>
     ELSE IF bk.own /\ more # {} THEN <<"setting in file but never set", One(more)>>
     ELSE <<>>
FileRegDiff(bk, doc) == LET d == FileFactsDiff(bk, doc) IN IF d # <<>> THEN d ELSE ItemsDiff(bk, doc)

\* saving may leave generated styles, bookkeeping, the standard parts and the choice of the active sheet behind
SavedRegDiff(bk, l) ==
  LET G == Facts(l)
      RS == Visible(bk.reg)
      rst == UsedRowSt(bk.sheets)
      cst == UsedColSt(bk.sheets)
      keep(f) == IF OwnsLen(f) /\ ~OwnLen(f, rst, cst) THEN [f EXCEPT !.x = ""]
                 ELSE IF f.k = "cfg" /\ f.n = "active_table" /\ f.t = "" THEN [f EXCEPT !.t = ActiveTable(bk)] ELSE f
      A == {keep(f) : f \in {g \in RS : ~Bookkept(g)}}
      old == {FKey(f) : f \in RS}
      new(g) == FKey(g) \notin old /\ (Generated(g) \/ (g.k = "file" /\ g.n \in StdFiles \cup {"manifest.rdf"}))
  IN IF ~Unique(l) THEN <<"listed twice">> ELSE SetDiff("registry after saving", A, {keep(g) : g \in {h \in G : ~Bookkept(h) /\ ~new(h)}})
AfterSaveReg(bk, l, doc) == [bk EXCEPT !.reg = Facts(l) \cup {f \in @ : f.k \in Carried}, !.items = doc.items, !.own = TRUE]

\* reading: what the file says, else what every workbook starts with
ReadRegDiff(doc, l, base0) ==
  LET F == {f \in Facts(doc.facts) : f.k \in Modelled}
      base == {f \in Facts(base0) : f.k # "cfg"}
      G == {g \in Facts(l) : g.k # "cfg" /\ ~(g.k = "file" /\ g.n \in StdFiles)}
      cmp(f) == Cmp(f, doc.fmt, TRUE)
      cand(k) == LET c == {f \in F : FKey(f) = k} IN IF c # {} THEN {cmp(f) : f \in c} ELSE {cmp(f) : f \in {b \in base : FKey(Norm(b)) = k}}
      wrong == {g \in G : cmp(g) \notin cand(FKey(Norm(g)))}
      got == {FKey(Norm(g)) : g \in G}
      lost == {k \in {FKey(f) : f \in F} \cup {FKey(Norm(f)) : f \in base} : k \notin got}
  IN IF ~Unique(l) THEN <<"listed twice">>
     ELSE IF wrong # {} THEN LET g == One(wrong) IN <<"read", g, "but file has", cand(FKey(Norm(g)))>>
     ELSE IF lost # {} THEN <<"not read", cand(One(lost))>>
     ELSE IF Cardinality(got) # Cardinality(G) THEN <<"default style twice">>
     ELSE <<>>
ItemAt(I, path) == {it \in ToSet(I) : it[1] = path}
\* the value of a setting: as stored when it has its type, the initial value when it is not stored
CfgOk(I, path, ty, init, got) ==
  LET it == ItemAt(I, path)
  IN IF it = {} THEN got = init ELSE \E x \in it : x[2][1] # ty \/ x[2][2] = got
ReadCfgDiff(doc, e) ==
  LET I == doc.items
      b0 == Facts(e.out.base)
      G == Facts(e.out.facts)
      val(RS, n) == One(RegAt(RS, "cfg", n)).t
      badB == {c \in BookCfg : ~CfgOk(I, Append(ViewPath, c[2]), c[3], val(b0, c[1]), val(G, c[1]))}
      names == [i \in DOMAIN e.out.sheets |-> e.out.sheets[i].name]
      badS == {<<i, c>> \in (DOMAIN e.out.sheets) \X SheetCfg :
                 ~CfgOk(I, Append(TablePath(names[i]), c[2]), c[3], Cfg0[c[1]], Pairs(e.out.sheets[i].cfg)[c[1]])}
  IN IF badB # {} THEN LET c == One(badB) IN <<"workbook setting read", c[2], val(G, c[1]), ItemAt(I, Append(ViewPath, c[2]))>>
     ELSE IF badS # {} THEN LET x == One(badS) IN <<"sheet setting read", names[x[1]], x[2][2], Pairs(e.out.sheets[x[1]].cfg)[x[2][1]], ItemAt(I, Append(TablePath(names[x[1]]), x[2][2]))>>
     ELSE <<>>
LoadedReg(doc, e) == Facts(e.out.facts) \cup {f \in Facts(doc.facts) : f.k \in Carried}

\* equal registries, whatever part of a package things are in
Essence(RS) == {[Cmp(f, "", FALSE) EXCEPT !.u = IF f.k \in Formats /\ @ = "d" THEN "n" ELSE @] : f \in {g \in RS : g.k \notin {"file", "ns"} /\ ~Bookkept(g) /\ ~Generated(g)}}

(* ---- a new workbook: its default styles exist and lead to formats of their value type that exist ---- *)
FormatKind == [bool |-> "nf:boolean", num |-> "nf:number", pct |-> "nf:percentage", cur |-> "nf:currency", dt |-> "nf:date", dur |-> "nf:time"]
NewDiff(e) ==
  LET def == Pairs(e.out.def)
      refs == e.out.refs           \* cell style, value format, kinds under which that format is registered
      styles == {refs[i][1] : i \in DOMAIN refs}
      \* for a locale that is not supported there are no formats (documented)
      supported == Get(e, "locale", "") # "xx"
      dangling == {i \in DOMAIN refs : supported /\ refs[i][2] # "" /\ refs[i][3] = <<>>}
      noStyle == {k \in DOMAIN def : def[k] \notin styles}
      mixed == {k \in DOMAIN def \cap DOMAIN FormatKind : supported /\ \E i \in DOMAIN refs : refs[i][1] = def[k] /\ refs[i][2] # "" /\ ~\E j \in DOMAIN refs[i][3] : refs[i][3][j] = FormatKind[k]}
  IN IF dangling # {} THEN <<"style refers to missing format", refs[Min(dangling)]>>
     ELSE IF noStyle # {} THEN <<"default style is missing", noStyle>>
     ELSE IF mixed # {} THEN <<"default style with a format of another kind", mixed, def, refs>>
     ELSE <<>>

(* ---- conditions ---- *)
Quote(x) == "\"" \o FoldLeft(LAMBDA a, c : a \o (IF c = "\"" THEN "\"\"" ELSE c), "", [i \in 1..Len(x) |-> Chr(x, i)]) \o "\""
CondOp == [eq |-> "=", ne |-> "!=", lt |-> "<", gt |-> ">", le |-> "<=", ge |-> ">="]
Operand(t, v) == IF t \in {"str", "string"} THEN Quote(v) ELSE v
InList(t, l) == FoldLeft(LAMBDA a, c : IF a = "" THEN c ELSE a \o ";" \o c, "", [i \in DOMAIN l |-> Quote(l[i])])
CondText(c) ==
  CASE c[1] = "value" -> "value()" \o CondOp[c[2]] \o Operand(c[3], c[4])
    [] c[1] = "content" -> "cell-content()" \o CondOp[c[2]] \o Operand(c[3], c[4])
    [] c[1] = "length" -> "cell-content-text-length()" \o CondOp[c[2]] \o c[3]
    [] c[1] = "between" -> "cell-content-text-length-is-between(" \o c[2] \o ", " \o c[3] \o ")"
    [] c[1] = "not_between" -> "cell-content-text-length-is-not-between(" \o c[2] \o ", " \o c[3] \o ")"
    [] c[1] = "list" -> "cell-content-is-in-list(" \o InList(c[2], c[3]) \o ")"
    [] c[1] = "range" -> "cell-content-is-in-list([" \o c[2] \o "])"
    [] c[1] = "and" -> "cell-content-is-" \o c[2] \o "() and " \o c[3]
    [] c[1] = "formula" -> "is-true-formula(" \o c[2] \o ")"
CondCheck(e) == IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE IF e.out # CondText(e.c) THEN <<"condition text", CondText(e.c), e.out>> ELSE <<>>

(* ---- faults: a sweep lists the outcomes of one call per failure point ---- *)
SweepOps == {"save_sweep", "save_limit", "load_sweep"}
\* a failure that was delivered is reported; without one the call succeeds; it never crashes
OutcomeOk(c) == IF c.inj THEN c.res = "err" ELSE c.res = "ok"
SweepCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res>>
  ELSE LET bad == {i \in DOMAIN e.out.cls : ~OutcomeOk(e.out.cls[i])}
       IN IF bad # {} THEN <<"failure not reported", e.mode, e.out.cls[Min(bad)]>>
          ELSE IF ~\E i \in DOMAIN e.out.cls : e.out.cls[i].inj \/ e.mode = "short" THEN <<"no failure delivered", e.out>>
          ELSE <<>>
\* impossible destinations and sources
PathOps == {"save_path", "load_path"}
PathCheck(e) == IF e.res = "err" THEN <<>> ELSE <<"failure not reported", e.op, e.res>>
\* any input: a document or an error; a document can be used and saved
TryCheck(e) ==
  IF e.res # "ok" THEN <<"crash", e.res, Get(e, "msg", "")>>
  ELSE IF Get(e, "must", "any") = "err" /\ e.out[1] # "err" THEN <<"damaged input accepted">>
  ELSE IF Get(e, "must", "any") = "doc" /\ e.out[1] # "doc" THEN <<"valid input rejected", e.out>>
  ELSE <<>>
\* binary image content: stored as base64 of the bytes; every spelling of that text gives the bytes back
ImgCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res>>
  ELSE IF e.out.text # B64(e.v) THEN <<"image text", B64(e.v), e.out.text>>
  ELSE IF e.out.back # <<e.v>> \/ \E i \in DOMAIN e.out.other : e.out.other[i] # <<e.v>> THEN <<"image bytes", e.v, e.out>>
  ELSE <<>>
FreeCheck(e) ==
  CASE e.op \in SweepOps -> SweepCheck(e)
    [] e.op \in PathOps -> PathCheck(e)
    [] e.op = "img" -> ImgCheck(e)
    [] e.op = "cond" -> CondCheck(e)
    [] e.op = "setters" -> SetCheck(e)
    [] e.op = "format" -> FormatCheck(e)
    [] e.op = "texttag" -> TagCheck(e)
    [] e.op = "locale" -> LocaleCheck(e)
    [] e.op = "ready" -> ReadyCheck(e)
    [] e.op = "conv" -> ConvCheck(e)
    [] e.op = "try_load" -> TryCheck(e)
    [] OTHER -> <<"unknown operation", e.op>>
=============================================================================
