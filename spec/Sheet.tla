-------------------------------- MODULE Sheet --------------------------------
(***************************************************************************)
(* One sheet as the application sees it: a position indexed map of cells,  *)
(* row and column attributes on intervals, headers, groups, print ranges   *)
(* and view settings - and every editing operation and query on it.        *)
(***************************************************************************)
EXTENDS Util

Val0  == [k |-> "empty", v |-> <<>>]
Cell0 == [v |-> Val0, f |-> <<>>, st |-> <<>>, va |-> <<>>, sp |-> <<1, 1>>,
          mx |-> <<1, 1>>, rep |-> 1, ann |-> <<>>, df |-> <<>>]
Attr0 == [st |-> <<>>, cs |-> <<>>, vis |-> "visible", len |-> "", rep |-> 1]
Cfg0 == [cursor_x |-> "0", cursor_y |-> "0", hor_split_mode |-> "0", vert_split_mode |-> "0",
         hor_split_pos |-> "0", vert_split_pos |-> "0", active_split_range |-> "2",
         position_left |-> "0", position_right |-> "0", position_top |-> "0",
         position_bottom |-> "0", zoom_type |-> "0", zoom_value |-> "100",
         page_view_zoom_value |-> "60", show_grid |-> "true"]

Sheet0(name) == [name |-> name, st |-> <<>>, disp |-> TRUE, print |-> TRUE,
                 cells |-> << >>, rows |-> {}, cols |-> {}, hr |-> <<>>, hc |-> <<>>,
                 rg |-> <<>>, cg |-> <<>>, pr |-> <<>>, cfg |-> Cfg0, xt |-> <<>>]

\* a cell as observed (extra bookkeeping fields dropped)
CellOf(x) == [v |-> x.v, f |-> x.f, st |-> x.st, va |-> x.va, sp |-> x.sp, mx |-> x.mx,
              rep |-> x.rep, ann |-> x.ann, df |-> x.df]

HasCell(sh, p) == p \in DOMAIN sh.cells
CellAt(sh, p) == IF p \in DOMAIN sh.cells THEN sh.cells[p] ELSE Cell0
PutCell(sh, p, c) == [sh EXCEPT !.cells = (p :> c) @@ @]
DropCell(sh, p) == [sh EXCEPT !.cells = [q \in DOMAIN @ \ {p} |-> @[q]]]

(* ---- attributes on intervals: setting index i never touches another index ---- *)
Holder(S, i) == {x \in S : x.lo <= i /\ i <= x.hi}
AttrAt(S, i) == LET H == Holder(S, i) IN IF H = {} THEN Attr0 ELSE (CHOOSE x \in H : TRUE).a
SetAttr(S, i, fld, v) ==
  LET H == Holder(S, i)
      a == [AttrAt(S, i) EXCEPT ![fld] = v]
      L == {[lo |-> x.lo, hi |-> i - 1, a |-> x.a] : x \in {y \in H : y.lo < i}}
      R == {[lo |-> i + 1, hi |-> x.hi, a |-> x.a] : x \in {y \in H : y.hi > i}}
  IN (S \ H) \cup L \cup R \cup {[lo |-> i, hi |-> i, a |-> a]}
RECURSIVE SetAttrs(_, _, _, _, _)
SetAttrs(S, lo, hi, fld, v) == IF lo > hi THEN S ELSE SetAttrs(SetAttr(S, lo, fld, v), lo + 1, hi, fld, v)
\* pointwise equality of two attribute maps (f projects an attribute), checked at every breakpoint
Points(S) == UNION {{x.lo, x.hi, x.hi + 1} : x \in S} \cup {0}
SamePointwise(S, T, eq(_, _)) == \A i \in Points(S) \cup Points(T) : eq(AttrAt(S, i), AttrAt(T, i))

(* ---- groups ---- *)
GContains(g, h) == g[1] <= h[1] /\ h[2] <= g[2]
GDisjoint(g, h) == g[2] < h[1] \/ h[2] < g[1]
GroupOk(gs, g) == g[1] <= g[2] /\ \A i \in DOMAIN gs : GContains(g, gs[i]) \/ GContains(gs[i], g) \/ GDisjoint(g, gs[i])
GroupIdx(gs, lo, hi) == First(gs, LAMBDA g : g[1] = lo /\ g[2] = hi)

(* ---- queries ---- *)
Used(sh) == IF DOMAIN sh.cells = {} THEN <<1, 1>>
            ELSE <<Max({p[1] : p \in DOMAIN sh.cells}) + 1, Max({p[2] : p \in DOMAIN sh.cells}) + 1>>
InRange(lo, hi, p) ==
  /\ CASE lo[1] = "inc" -> LexEq(<<lo[2], lo[3]>>, p) [] lo[1] = "exc" -> Lex(<<lo[2], lo[3]>>, p) [] OTHER -> TRUE
  /\ CASE hi[1] = "inc" -> LexEq(p, <<hi[2], hi[3]>>) [] hi[1] = "exc" -> Lex(p, <<hi[2], hi[3]>>) [] OTHER -> TRUE
InRect(lo, hi, p) ==
  /\ CASE lo[1] = "inc" -> lo[2] <= p[1] /\ lo[3] <= p[2] [] OTHER -> TRUE
  /\ CASE hi[1] = "inc" -> p[1] <= hi[2] /\ p[2] <= hi[3] [] hi[1] = "exc" -> p[1] < hi[2] /\ p[2] < hi[3] [] OTHER -> TRUE
IterSet(sh, e) == CASE e.kind \in {"rows", "cols"} -> {p \in DOMAIN sh.cells : InRect(e.lo, e.hi, p)}
                    [] e.kind \in {"range", "rev"} -> {p \in DOMAIN sh.cells : InRange(e.lo, e.hi, p)}
                    [] OTHER -> DOMAIN sh.cells
IterOk(sh, e) ==
  LET S == IterSet(sh, e)
      l == e.out.l
      pos == [i \in DOMAIN l |-> <<l[i][1], l[i][2]>>]
  IN /\ Len(l) = Cardinality(S)
     /\ ToSet(pos) = S
     /\ \A i \in 1..(Len(l) - 1) : CASE e.kind = "cols" -> Colex(pos[i], pos[i + 1])
                                     [] e.kind = "rev" -> Lex(pos[i + 1], pos[i])
                                     [] OTHER -> Lex(pos[i], pos[i + 1])
     /\ \A i \in DOMAIN l : l[i][3] = sh.cells[pos[i]].v
     /\ e.out.hint[1] <= Len(l) /\ Len(l) <= e.out.hint[2]

CellListOk(sh, l) ==
  /\ Len(l) = Cardinality(DOMAIN sh.cells)
  /\ \A i \in DOMAIN l : LET p == <<l[i].r, l[i].c>> IN HasCell(sh, p) /\ sh.cells[p] = CellOf(l[i])
  /\ \A i \in 1..(Len(l) - 1) : Lex(<<l[i].r, l[i].c>>, <<l[i + 1].r, l[i + 1].c>>)

Rep1(n) == IF n = 0 THEN 1 ELSE n
\* style names that the library generates while saving are not predicted ("*")
StEq(exp, got) == exp = got \/ (exp = <<"*">> /\ got # <<>>)
AttrEq(exp, got) == StEq(exp.st, got.st) /\ exp.cs = got.cs /\ exp.vis = got.vis /\ exp.len = got.len
RowProbeOk(sh, x) == LET a == AttrAt(sh.rows, x.i) IN AttrEq(a, x) /\ (a.rep = 0 \/ Rep1(x.rep) = a.rep)
ColProbeOk(sh, x) == AttrEq(AttrAt(sh.cols, x.i), x)

\* the complete projection of a sheet
SheetDiff(sh, o) ==
  CASE o.name # sh.name -> <<"name", sh.name, o.name>>
    [] o.st # sh.st -> <<"style", sh.st, o.st>>
    [] o.disp # sh.disp -> <<"display", sh.disp>>
    [] o.print # sh.print -> <<"print", sh.print>>
    [] ~CellListOk(sh, o.cells) -> <<"cells", sh.cells, o.cells>>
    [] o.n # Cardinality(DOMAIN sh.cells) -> <<"count", o.n>>
    [] o.size # Used(sh) -> <<"used size", o.size>>
    [] \E i \in DOMAIN o.rows : ~RowProbeOk(sh, o.rows[i]) ->
         LET i == CHOOSE i \in DOMAIN o.rows : ~RowProbeOk(sh, o.rows[i]) IN <<"row", AttrAt(sh.rows, o.rows[i].i), o.rows[i]>>
    [] \E i \in DOMAIN o.cols : ~ColProbeOk(sh, o.cols[i]) ->
         LET i == CHOOSE i \in DOMAIN o.cols : ~ColProbeOk(sh, o.cols[i]) IN <<"col", AttrAt(sh.cols, o.cols[i].i), o.cols[i]>>
    [] o.hr # sh.hr -> <<"header rows", sh.hr, o.hr>>
    [] o.hc # sh.hc -> <<"header cols", sh.hc, o.hc>>
    [] ~SameBag(sh.rg, o.rg) -> <<"row groups", sh.rg, o.rg>>
    [] ~SameBag(sh.cg, o.cg) -> <<"col groups", sh.cg, o.cg>>
    [] o.pr # sh.pr -> <<"print ranges", sh.pr, o.pr>>
    [] Pairs(o.cfg) # sh.cfg -> <<"view settings", sh.cfg, o.cfg>>
    [] OTHER -> <<>>

CellQueryOk(sh, p, o) ==
  LET c == CellAt(sh, p)
      h == HasCell(sh, p)
      \* an absent cell answers with the neutral value of each aspect
      single == [o.single EXCEPT !.rep = Rep1(@)]
  IN /\ single = c
     /\ o.cell = IF h THEN <<c>> ELSE <<>>
     /\ o.cref = IF h THEN <<c, c>> ELSE <<>>
     /\ o.empty = ~h

(***************************************************************************)
(* Editing.  SheetOp(sh, clip, e) = the outcome of operation e:            *)
(*   ok   - FALSE if the operation must be refused                          *)
(*   sh   - the sheet afterwards                                            *)
(*   clip - clip board of cut or copied cells                               *)
(*   out  - <<expected result>> or <<>> if nothing specific is returned     *)
(***************************************************************************)
R(ok, sh, clip, out) == [ok |-> ok, sh |-> sh, clip |-> clip, out |-> out]
SetF(sh, clip, e, fld, v) ==
  LET p == <<e.r, e.c>> IN R(TRUE, PutCell(sh, p, [CellAt(sh, p) EXCEPT ![fld] = v]), clip, <<>>)
ClrF(sh, clip, e, fld, v) ==
  LET p == <<e.r, e.c>> IN R(TRUE, IF HasCell(sh, p) THEN PutCell(sh, p, [CellAt(sh, p) EXCEPT ![fld] = v]) ELSE sh, clip, <<>>)
SpanF(sh, clip, e, fld, k) ==
  LET p == <<e.r, e.c>>
  IN IF e.n = 0 THEN R(FALSE, sh, clip, <<>>)
     ELSE R(TRUE, PutCell(sh, p, [CellAt(sh, p) EXCEPT ![fld][k] = e.n]), clip, <<>>)
RowF(sh, clip, e, fld, v) == R(TRUE, [sh EXCEPT !.rows = SetAttr(@, e.i, fld, v)], clip, <<>>)
ColF(sh, clip, e, fld, v) == R(TRUE, [sh EXCEPT !.cols = SetAttr(@, e.i, fld, v)], clip, <<>>)
ClipKey(e) == Get(e, "clip", 0)

CellOps == {"set_value", "set_styled_value", "set_formula", "clear_formula", "set_repeat", "set_cellstyle",
            "clear_cellstyle", "set_validation", "clear_validation", "set_row_span", "set_col_span",
            "set_mx_row_span", "set_mx_col_span", "set_ann", "clear_ann", "add_frame", "clear_frames",
            "remove_cell", "copy_cell", "add_cell", "add_new_cell"}
AttrOps == {"set_rowstyle", "clear_rowstyle", "set_row_cellstyle", "clear_row_cellstyle", "set_row_visible",
            "set_row_height", "set_row_repeat", "set_colstyle", "clear_colstyle", "set_col_cellstyle",
            "clear_col_cellstyle", "set_col_visible", "set_col_width"}
FormOps == {"set_header_rows", "clear_header_rows", "set_header_cols", "clear_header_cols", "add_row_group",
            "remove_row_group", "disp_row_group", "add_col_group", "remove_col_group", "disp_col_group", "flag_col_group",
            "add_print_range", "clear_print_ranges", "set_name", "set_tablestyle", "set_display", "set_print",
            "split_col_header", "split_row_header", "split_horizontal", "split_vertical", "set_cfg"}
QueryOps == {"q_cell", "q_sheet", "q_iter"}
SheetOps == CellOps \cup AttrOps \cup FormOps \cup QueryOps

CellOp(sh, clip, e) ==
  LET p == <<e.r, e.c>> IN
  CASE e.op = "set_value" -> SetF(sh, clip, e, "v", e.v)
    [] e.op = "set_styled_value" -> R(TRUE, PutCell(sh, p, [CellAt(sh, p) EXCEPT !.v = e.v, !.st = <<e.st>>]), clip, <<>>)
    [] e.op = "set_formula" -> SetF(sh, clip, e, "f", <<e.f>>)
    [] e.op = "clear_formula" -> ClrF(sh, clip, e, "f", <<>>)
    [] e.op = "set_repeat" -> IF e.n = 0 THEN R(FALSE, sh, clip, <<>>) ELSE SetF(sh, clip, e, "rep", e.n)
    [] e.op = "set_cellstyle" -> SetF(sh, clip, e, "st", <<e.st>>)
    [] e.op = "clear_cellstyle" -> ClrF(sh, clip, e, "st", <<>>)
    [] e.op = "set_validation" -> SetF(sh, clip, e, "va", <<e.va>>)
    [] e.op = "clear_validation" -> ClrF(sh, clip, e, "va", <<>>)
    [] e.op = "set_row_span" -> SpanF(sh, clip, e, "sp", 1)
    [] e.op = "set_col_span" -> SpanF(sh, clip, e, "sp", 2)
    [] e.op = "set_mx_row_span" -> SpanF(sh, clip, e, "mx", 1)
    [] e.op = "set_mx_col_span" -> SpanF(sh, clip, e, "mx", 2)
    [] e.op = "set_ann" -> SetF(sh, clip, e, "ann", <<e.x>>)
    [] e.op = "clear_ann" -> ClrF(sh, clip, e, "ann", <<>>)
    [] e.op = "add_frame" -> SetF(sh, clip, e, "df", Append(CellAt(sh, p).df, e.x))
    [] e.op = "clear_frames" -> ClrF(sh, clip, e, "df", <<>>)
    [] e.op = "remove_cell" ->
         IF HasCell(sh, p) THEN R(TRUE, DropCell(sh, p), (ClipKey(e) :> CellAt(sh, p)) @@ clip, << <<CellAt(sh, p)>> >>)
         ELSE R(TRUE, sh, clip, << <<>> >>)
    [] e.op = "copy_cell" ->
         IF HasCell(sh, p) THEN R(TRUE, sh, (ClipKey(e) :> CellAt(sh, p)) @@ clip, << <<CellAt(sh, p)>> >>)
         ELSE R(TRUE, sh, clip, << <<>> >>)
    [] e.op = "add_cell" ->
         IF ClipKey(e) \in DOMAIN clip THEN R(TRUE, PutCell(sh, p, clip[ClipKey(e)]), clip, << <<clip[ClipKey(e)]>> >>)
         ELSE R(TRUE, sh, clip, << <<>> >>)
    [] e.op = "add_new_cell" -> R(TRUE, PutCell(sh, p, CellOf(e.x)), clip, << <<CellOf(e.x)>> >>)

AttrOp(sh, clip, e) ==
  CASE e.op = "set_rowstyle" -> RowF(sh, clip, e, "st", <<e.x>>)
    [] e.op = "clear_rowstyle" -> RowF(sh, clip, e, "st", <<>>)
    [] e.op = "set_row_cellstyle" -> RowF(sh, clip, e, "cs", <<e.x>>)
    [] e.op = "clear_row_cellstyle" -> RowF(sh, clip, e, "cs", <<>>)
    [] e.op = "set_row_visible" -> RowF(sh, clip, e, "vis", e.x)
    [] e.op = "set_row_height" -> RowF(sh, clip, e, "len", e.x)
    [] e.op = "set_row_repeat" -> IF e.n = 0 THEN R(FALSE, sh, clip, <<>>) ELSE RowF(sh, clip, e, "rep", e.n)
    [] e.op = "set_colstyle" -> ColF(sh, clip, e, "st", <<e.x>>)
    [] e.op = "clear_colstyle" -> ColF(sh, clip, e, "st", <<>>)
    [] e.op = "set_col_cellstyle" -> ColF(sh, clip, e, "cs", <<e.x>>)
    [] e.op = "clear_col_cellstyle" -> ColF(sh, clip, e, "cs", <<>>)
    [] e.op = "set_col_visible" -> ColF(sh, clip, e, "vis", e.x)
    [] e.op = "set_col_width" -> ColF(sh, clip, e, "len", e.x)

Vis(b) == IF b THEN "visible" ELSE "collapse"
FormOp(sh, clip, e) ==
  LET ok(s) == R(TRUE, s, clip, <<>>)
      no == R(FALSE, sh, clip, <<>>)
  IN
  CASE e.op = "set_header_rows" -> ok([sh EXCEPT !.hr = <<e.lo, e.hi>>])
    [] e.op = "clear_header_rows" -> ok([sh EXCEPT !.hr = <<>>])
    [] e.op = "set_header_cols" -> ok([sh EXCEPT !.hc = <<e.lo, e.hi>>])
    [] e.op = "clear_header_cols" -> ok([sh EXCEPT !.hc = <<>>])
    [] e.op = "add_row_group" ->
         LET g == <<e.lo, e.hi, TRUE>> IN IF GroupOk(sh.rg, g) THEN ok([sh EXCEPT !.rg = Append(@, g)]) ELSE no
    [] e.op = "add_col_group" ->
         LET g == <<e.lo, e.hi, TRUE>> IN IF GroupOk(sh.cg, g) THEN ok([sh EXCEPT !.cg = Append(@, g)]) ELSE no
    [] e.op = "remove_row_group" ->
         LET i == GroupIdx(sh.rg, e.lo, e.hi) IN ok(IF i = 0 THEN sh ELSE [sh EXCEPT !.rg = RemoveAt(@, i)])
    [] e.op = "remove_col_group" ->
         LET i == GroupIdx(sh.cg, e.lo, e.hi) IN ok(IF i = 0 THEN sh ELSE [sh EXCEPT !.cg = RemoveAt(@, i)])
    \* collapsing or expanding a group hides or shows exactly its rows
    [] e.op = "disp_row_group" ->
         LET i == GroupIdx(sh.rg, e.lo, e.hi)
         IN ok(IF i = 0 THEN sh ELSE [sh EXCEPT !.rg[i] = <<e.lo, e.hi, e.x>>, !.rows = SetAttrs(@, e.lo, e.hi, "vis", Vis(e.x))])
    [] e.op = "disp_col_group" ->
         LET i == GroupIdx(sh.cg, e.lo, e.hi)
         IN ok(IF i = 0 THEN sh ELSE [sh EXCEPT !.cg[i] = <<e.lo, e.hi, e.x>>, !.cols = SetAttrs(@, e.lo, e.hi, "vis", Vis(e.x))])
    \* the flag alone says nothing about the columns
    [] e.op = "flag_col_group" ->
         LET i == GroupIdx(sh.cg, e.lo, e.hi)
         IN ok(IF i = 0 THEN sh ELSE [sh EXCEPT !.cg[i] = <<e.lo, e.hi, e.x>>])
    [] e.op = "add_print_range" -> ok([sh EXCEPT !.pr = Append(@, e.x)])
    [] e.op = "clear_print_ranges" -> ok([sh EXCEPT !.pr = <<>>])
    [] e.op = "set_name" -> ok([sh EXCEPT !.name = e.x])
    [] e.op = "set_tablestyle" -> ok([sh EXCEPT !.st = <<e.x>>])
    [] e.op = "set_display" -> ok([sh EXCEPT !.disp = e.x])
    [] e.op = "set_print" -> ok([sh EXCEPT !.print = e.x])
    [] e.op = "split_col_header" ->
         LET n == ToString(e.i + 1)
         IN ok([sh EXCEPT !.cfg.hor_split_mode = "2", !.cfg.hor_split_pos = n, !.cfg.position_right = n, !.cfg.cursor_x = n])
    [] e.op = "split_row_header" ->
         LET n == ToString(e.i + 1)
         IN ok([sh EXCEPT !.cfg.vert_split_mode = "2", !.cfg.vert_split_pos = n, !.cfg.position_bottom = n, !.cfg.cursor_y = n])
    [] e.op = "split_horizontal" -> ok([sh EXCEPT !.cfg.hor_split_mode = "1", !.cfg.hor_split_pos = ToString(e.i)])
    [] e.op = "split_vertical" -> ok([sh EXCEPT !.cfg.vert_split_mode = "1", !.cfg.vert_split_pos = ToString(e.i)])
    [] e.op = "set_cfg" -> ok([sh EXCEPT !.cfg[e.k] = e.x])

SheetOp(sh, clip, e) == CASE e.op \in CellOps -> CellOp(sh, clip, e)
                          [] e.op \in AttrOps -> AttrOp(sh, clip, e)
                          [] e.op \in FormOps -> FormOp(sh, clip, e)

\* <<>> or the reason why the answer to a query is wrong
SheetQuery(sh, e) ==
  CASE e.op = "q_cell" -> IF CellQueryOk(sh, <<e.r, e.c>>, e.out) THEN <<>> ELSE <<"cell query", CellAt(sh, <<e.r, e.c>>), e.out>>
    [] e.op = "q_sheet" -> SheetDiff(sh, e.out)
    [] e.op = "q_iter" -> IF IterOk(sh, e) THEN <<>> ELSE <<"iteration", IterSet(sh, e), e.out>>
=============================================================================
