------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* The two directions between a sheet in memory and a table in a file:     *)
(*   SaveDiff - the file must denote exactly the sheet                      *)
(*   ReadDiff - the sheet read must be exactly what the file denotes        *)
(* Both give <<>> or the reason why not.                                   *)
(***************************************************************************)
EXTENDS Denote, Refs

(* ---- saving ---- *)
RowRep(sh, r) == AttrAt(sh.rows, r).rep
\* a save is refused iff a repeated row or cell runs into following data
RowRepIdx(sh) == {x \in sh.rows : x.a.rep > 1}
MustRefuse(sh) ==
  \/ \E x \in RowRepIdx(sh) : \E p \in DOMAIN sh.cells : p[1] > x.lo /\ p[1] < x.lo + x.a.rep
  \/ \E p \in DOMAIN sh.cells : sh.cells[p].rep > 1 /\ \E q \in DOMAIN sh.cells : q[1] = p[1] /\ q[2] > p[2] /\ q[2] < p[2] + sh.cells[p].rep

\* Contradicting input without a defined meaning: attributes, group or header bounds inside the range
\* of a repeated row, spans on repeated cells, spans on or over repeated rows.  A save may do anything but crash.
RepOf(x) == x.lo + x.a.rep - 1
CutBy(x, g) == (x.lo < g[1] /\ g[1] <= RepOf(x)) \/ (x.lo <= g[2] /\ g[2] < RepOf(x))
Blurred(sh) ==
  \/ \E x \in RowRepIdx(sh) : \/ \E y \in sh.rows : y # x /\ y.a # Attr0 /\ y.hi > x.lo /\ y.lo <= RepOf(x)
                             \/ \E i \in DOMAIN sh.rg : CutBy(x, sh.rg[i])
                             \/ (sh.hr # <<>> /\ CutBy(x, sh.hr))
  \/ \E p \in DOMAIN sh.cells : LET c == sh.cells[p] IN
       /\ c.sp # <<1, 1>>
       /\ \/ c.rep > 1
          \/ \E x \in RowRepIdx(sh) : x.lo <= p[1] + c.sp[1] - 1 /\ RepOf(x) >= p[1]

DefStyle(def, v) == LET k == v.k IN IF k \in DOMAIN def THEN <<def[k]>> ELSE <<>>
OutStyle(c, def) == [c EXCEPT !.st = IF @ = <<>> THEN DefStyle(def, c.v) ELSE @]
OutCell(c, def) == [OutStyle(c, def) EXCEPT !.rep = 1]
ModelGrid(sh, def) ==
  {q \in {[r1 |-> p[1], r2 |-> p[1] + RowRep(sh, p[1]) - 1, c1 |-> p[2], c2 |-> p[2] + sh.cells[p].rep - 1,
           x |-> OutCell(sh.cells[p], def)] : p \in DOMAIN sh.cells} : ~NoCell(q.x)}
FileGrid(d) == {[r1 |-> q.r1, r2 |-> q.r2, c1 |-> q.c1, c2 |-> q.c2, x |-> q.x] : q \in {g \in ToSet(d.grid) : ~NoCell(g.x)}}

\* spans in row-major order; a cell that is itself covered opens no span
SpanRect(p, c) == [r1 |-> p[1], r2 |-> p[1] + c.sp[1] - 1, c1 |-> p[2], c2 |-> p[2] + c.sp[2] - 1]
InSpan(s, r, c) == Covers(s, r, c) /\ ~(r = s.r1 /\ c = s.c1)
Spans(sh) ==
  LET P == {p \in DOMAIN sh.cells : sh.cells[p].sp # <<1, 1>>}
  IN FoldSeq(LAMBDA p, a : IF \E i \in DOMAIN a : InSpan(a[i], p[1], p[2]) THEN a ELSE Append(a, SpanRect(p, sh.cells[p])),
             <<>>, Sorted(P, Lex))
CoverOk(sh, d) ==
  LET sp == ToSet(Spans(sh))
      g == ToSet(d.grid)
  IN IF sp = {} THEN \A q \in g : ~q.cov
     ELSE LET rb == {q.r1 : q \in g} \cup {s.r1 : s \in sp} \cup {s.r2 + 1 : s \in sp} \cup {s.r1 + 1 : s \in sp}
              cb == {q.c1 : q \in g} \cup {s.c1 : s \in sp} \cup {s.c2 + 1 : s \in sp} \cup {s.c1 + 1 : s \in sp}
          IN \A r \in rb : LET gr == {q \in g : q.r1 <= r /\ r <= q.r2} IN
               \A c \in cb : \A q \in gr : Covers(q, r, c) => (q.cov <=> \E s \in sp : InSpan(s, r, c))

\* styles used with several lengths may be written as copies, lengths without style get one
LensOf(S, st) == {x.a.len : x \in {y \in S : y.a.st = st}}
SavedStEq(a, shared, g) ==
  IF a.st = <<>> THEN (a.len = "" /\ g.st = <<>>) \/ (a.len # "" /\ g.st # <<>>)
  ELSE a.st = g.st \/ (a.st = <<"*">> /\ g.st # <<>>) \/ (a.st \in shared /\ g.st # <<>>)
LineDiff(S, T, shared) ==
  LET P == {i \in Points(S) \cup Points(T) :
              LET a == AttrAt(S, i)
                  g == AttrAt(T, i)
              IN ~(SavedStEq(a, shared, g) /\ a.cs = g.cs /\ a.vis = g.vis /\ a.len = g.len)}
  IN IF P = {} THEN <<>> ELSE LET i == Min(P) IN <<"index", i, "expected", AttrAt(S, i), "found", AttrAt(T, i)>>
\* row attributes with repeat counts: the attribute of a repeated row holds for all its repetitions
RowSpread(S) == {[x EXCEPT !.hi = IF x.a.rep > 1 THEN x.lo + x.a.rep - 1 ELSE x.hi, !.a.rep = 1] : x \in {y \in S : y.a # Attr0}}
NoRep(S) == {[x EXCEPT !.a.rep = 1] : x \in S}

SheetLvlDiff(sh, tb) ==
  CASE tb.name # sh.name -> <<"table name", sh.name, tb.name>>
    [] tb.st # sh.st -> <<"table style", sh.st, tb.st>>
    [] tb.disp # sh.disp -> <<"table display", sh.disp>>
    [] tb.print # sh.print -> <<"table print", sh.print>>
    [] LET pr == IF tb.pr = <<>> THEN <<>> ELSE ParseRanges(tb.pr[1]) IN pr # NormRanges(sh.pr) -> <<"print ranges", sh.pr, tb.pr>>
    [] OTHER -> <<>>

SaveDiff(sh, tb, doc, def, rshared, cshared) ==
  LET d == Den(tb, doc)
      M == ModelGrid(sh, def)
      F == FileGrid(d)
      rd == LineDiff(RowSpread(sh.rows), d.rows, rshared)
      cd == LineDiff(sh.cols, d.cols, cshared)
      sl == SheetLvlDiff(sh, tb)
  IN CASE ~d.ok -> <<"table structure", tb>>
       [] sl # <<>> -> sl
       [] ~SameGrid(M, F) -> <<"cells in file">> \o GridDiff(M, F)
       [] ~CoverOk(sh, d) -> <<"covered cells in file", Spans(sh), d.grid>>
       [] rd # <<>> -> <<"row attributes in file">> \o rd
       [] cd # <<>> -> <<"column attributes in file">> \o cd
       [] ~SameBag(sh.rg, d.rg) -> <<"row groups in file", sh.rg, d.rg>>
       [] ~SameBag(sh.cg, d.cg) -> <<"column groups in file", sh.cg, d.cg>>
       [] sh.hr # d.hr \/ ~d.hok -> <<"header rows in file", sh.hr, d.hr>>
       [] sh.hc # d.hc -> <<"header columns in file", sh.hc, d.hc>>
       [] OTHER -> <<>>

\* effect of a save on the sheet in memory: generated row/column styles only
Mark(S, shared) == {[x EXCEPT !.a.st = IF (x.a.st = <<>> /\ x.a.len # "") \/ x.a.st \in shared THEN <<"*">> ELSE @] : x \in S}
AfterSave(sh, rshared, cshared) == [sh EXCEPT !.rows = Mark(@, rshared), !.cols = Mark(@, cshared)]

(* ---- reading ---- *)
\* effective default cell style at a position: that of the row, else that of the column
DefAt(d, r, c) == LET a == AttrAt(d.rows, r).cs IN IF a # <<>> THEN a ELSE AttrAt(d.cols, c).cs
ColDefs(d, q) == {AttrAt(d.cols, c).cs : c \in {q.c1} \cup {i \in Points(d.cols) : q.c1 <= i /\ i <= q.c2}}
OptionalTok(d, q) ==
  \/ NoCell(q.x)
  \/ StyleOnly(q.x) /\ LET rcs == AttrAt(d.rows, q.r1).cs IN IF rcs # <<>> THEN q.x.st = rcs ELSE ColDefs(d, q) = {q.x.st}
SameRow(q, g) == q.r1 = g.r1
TrailTok(d, q) == StyleOnly(q.x) /\ q.c2 > q.c1 /\ \A g \in ToSet(d.grid) : (SameRow(q, g) /\ g.c1 > q.c1) => OptionalTok(d, g) \/ (StyleOnly(g.x) /\ g.c2 > g.c1)

\* what must be / may be at each position; mode: [rep |-> BOOLEAN, noempty |-> BOOLEAN]
StoredX(q, mode) == [q.x EXCEPT !.rep = IF mode.rep THEN q.c2 - q.c1 + 1 ELSE 1]
MustTok(d, q, mode) ==
  /\ ~OptionalTok(d, q) /\ ~TrailTok(d, q)
  /\ ~(mode.noempty /\ Valueless(q.x))
MayTok(d, q, mode) == ~NoCell(q.x) /\ ~(mode.noempty /\ StyleOnly(q.x))
\* rows repeated more than 1000 times near the end of a sheet (fewer than five rows with cells follow) are padding that may be cut
\* to the first row
Padding(d, mode, lo, hi) ==
  hi - lo >= 1000 /\ Cardinality({q.r1 : q \in {g \in ToSet(d.grid) : g.r1 > hi /\ MustTok(d, g, mode)}}) < 5
LongRow(d, mode, q) == q.r2 - q.r1 >= 1000 /\ Padding(d, mode, q.r1, q.r2)
Expand(d, q, mode) ==
  IF mode.rep THEN {<<q.r1, q.c1>>}
  ELSE {<<r, c>> : r \in q.r1..(IF LongRow(d, mode, q) THEN q.r1 ELSE q.r2), c \in q.c1..q.c2}
CellMap(d, Q, mode) == UNION {{<<p, StoredX(q, mode)>> : p \in Expand(d, q, mode)} : q \in Q}
ReadCellsDiff(d, l, mode) ==
  LET G == ToSet(d.grid)
      must == CellMap(d, {q \in G : MustTok(d, q, mode)}, mode)
      may == CellMap(d, {q \in G : MayTok(d, q, mode)}, mode)
      got == {<< <<l[i].r, l[i].c>>, CellOf(l[i])>> : i \in DOMAIN l}
      inLong(p) == \E q \in G : LongRow(d, mode, q) /\ Covers(q, p[1], p[2])
      miss == must \ got
      extra == {g \in got \ may : ~inLong(g[1])}
  IN IF miss # {} THEN LET m == CHOOSE m \in miss : \A n \in miss : LexEq(m[1], n[1])
                       IN <<"cell missing or different", m, {g \in got : g[1] = m[1]}>>
     ELSE IF extra # {} THEN <<"cell not in file", CHOOSE m \in extra : \A n \in extra : LexEq(m[1], n[1])>>
     ELSE IF Cardinality({g[1] : g \in got}) # Len(l) THEN <<"cell twice">>
     ELSE <<>>

\* row attributes after reading; padding may be cut to the first
ReadRows(d, mode, l) ==
  LET data(x) == \E i \in DOMAIN l : l[i].r = x.lo
  IN IF mode.rep
     THEN {[lo |-> x.lo, hi |-> x.lo, a |-> [x.a EXCEPT !.rep = IF ~data(x) THEN 0 ELSE IF Padding(d, mode, x.lo, x.hi) THEN 1 ELSE x.hi - x.lo + 1]] : x \in d.rows}
     ELSE {[x EXCEPT !.hi = IF Padding(d, mode, x.lo, x.hi) THEN x.lo ELSE x.hi] : x \in d.rows}
LongAt(d, mode, i) == \E x \in d.rows : x.lo < i /\ i <= x.hi /\ Padding(d, mode, x.lo, x.hi)
LongFirst(d, mode, i) == \E x \in d.rows : x.lo = i /\ Padding(d, mode, x.lo, x.hi)
ReadRowProbeOk(d, mode, S, x) == LET a == AttrAt(S, x.i) IN \/ LongAt(d, mode, x.i) \/ (AttrEq(a, x) /\ (a.rep = 0 \/ Rep1(x.rep) = a.rep \/ LongFirst(d, mode, x.i)))

ReadDiff(tb, doc, o, mode) ==
  LET d == Den(tb, doc)
      cd == ReadCellsDiff(d, o.cells, mode)
      S == ReadRows(d, mode, o.cells)
      pr == IF tb.pr = <<>> THEN <<>> ELSE ParseRanges(tb.pr[1])
  IN CASE ~d.ok -> <<"table structure", tb>>
       [] o.name # tb.name -> <<"sheet name", tb.name, o.name>>
       [] o.st # tb.st -> <<"sheet style", tb.st, o.st>>
       [] o.disp # tb.disp -> <<"sheet display", tb.disp>>
       [] o.print # tb.print -> <<"sheet print", tb.print>>
       [] NormRanges(o.pr) # pr -> <<"sheet print ranges", tb.pr, o.pr>>
       [] cd # <<>> -> cd
       [] \E i \in DOMAIN o.rows : ~ReadRowProbeOk(d, mode, S, o.rows[i]) ->
            LET i == CHOOSE i \in DOMAIN o.rows : ~ReadRowProbeOk(d, mode, S, o.rows[i]) IN <<"row read", AttrAt(S, o.rows[i].i), o.rows[i]>>
       [] \E i \in DOMAIN o.cols : ~AttrEq(AttrAt(d.cols, o.cols[i].i), o.cols[i]) ->
            LET i == CHOOSE i \in DOMAIN o.cols : ~AttrEq(AttrAt(d.cols, o.cols[i].i), o.cols[i]) IN <<"column read", AttrAt(d.cols, o.cols[i].i), o.cols[i]>>
       [] o.hr # d.hr -> <<"header rows read", d.hr, o.hr>>
       [] o.hc # d.hc -> <<"header columns read", d.hc, o.hc>>
       [] ~SameBag(o.rg, d.rg) -> <<"row groups read", d.rg, o.rg>>
       [] ~SameBag(o.cg, d.cg) -> <<"column groups read", d.cg, o.cg>>
       [] OTHER -> <<>>

\* padding that was read in full (a row behind its first one has its attributes) stays
Uncut(x, l) == \E i \in DOMAIN l : x.lo < l[i].i /\ l[i].i <= x.hi /\ x.a # Attr0 /\ AttrEq(x.a, l[i])
KeptRows(d, mode, o) ==
  LET S == ReadRows(d, mode, o.cells)
      full == IF mode.rep THEN {} ELSE {x \in d.rows : Uncut(x, o.rows)}
  IN {x \in S : ~\E y \in full : y.lo = x.lo} \cup full
\* the sheet in memory after reading: verified cells as observed, everything else as denoted
ReadSheet(tb, doc, o, mode) ==
  LET d == Den(tb, doc)
      P == {<<o.cells[i].r, o.cells[i].c>> : i \in DOMAIN o.cells}
  IN [name |-> tb.name, st |-> tb.st, disp |-> tb.disp, print |-> tb.print,
      cells |-> [p \in P |-> CellOf(o.cells[CHOOSE i \in DOMAIN o.cells : <<o.cells[i].r, o.cells[i].c>> = p])],
      rows |-> {x \in KeptRows(d, mode, o) : x.a # Attr0}, cols |-> {x \in d.cols : x.a # Attr0},
      hr |-> d.hr, hc |-> d.hc, rg |-> d.rg, cg |-> d.cg, pr |-> o.pr, cfg |-> Pairs(o.cfg), xt |-> tb.xt]
=============================================================================
