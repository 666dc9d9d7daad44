-------------------------------- MODULE Refs ---------------------------------
(***************************************************************************)
(* Cell, column, row and range references by the grammar of OpenFormula /  *)
(* ODF: the text a reference has and the reference a text denotes.         *)
(* A reference is a record of strings; "" stands for an absent table or    *)
(* document; row and column numbers start at 0 and carry a leading "$"     *)
(* when absolute.                                                          *)
(***************************************************************************)
EXTENDS Lexical

Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LetterSet == ToSet(Letters)
LetterVal(c) == CHOOSE i \in 1..26 : Letters[i] = c

\* column names: bijective base 26
RECURSIVE ColNameN(_)
ColNameN(n) == IF n = 0 THEN "" ELSE ColNameN((n - 1) \div 26) \o Letters[((n - 1) % 26) + 1]
ColName(i) == ColNameN(i + 1)
RECURSIVE ColNumN(_)
ColNumN(s) == IF s = "" THEN 0 ELSE 26 * ColNumN(SubSeq(s, 1, Len(s) - 1)) + LetterVal(Chr(s, Len(s)))
ColNum(s) == ColNumN(s) - 1

IsAbs(x) == Len(x) > 0 /\ Chr(x, 1) = "$"
NumPart(x) == IF IsAbs(x) THEN From(x, 2) ELSE x
AbsMark(x) == IF IsAbs(x) THEN "$" ELSE ""
RowText(x) == AbsMark(x) \o ToString(ToInt(NumPart(x)) + 1)
ColText(x) == AbsMark(x) \o ColName(ToInt(NumPart(x)))

(* ---- parsing; every parser gives [ok, i, v] with i the next position ---- *)
Fail == [ok |-> FALSE, i |-> 0, v |-> ""]
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ Chr(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i
NotInName == {"]", ".", " ", "#", "$", "'"}
RECURSIVE SkipNotIn(_, _, _)
SkipNotIn(s, i, S) == IF i <= Len(s) /\ Chr(s, i) \notin S THEN SkipNotIn(s, i + 1, S) ELSE i
\* quoted string starting at i (just after the opening quote)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==
  IF i > Len(s) THEN Fail
  ELSE IF Chr(s, i) # "'" THEN Quoted(s, i + 1, acc \o Chr(s, i))
  ELSE IF i < Len(s) /\ Chr(s, i + 1) = "'" THEN Quoted(s, i + 2, acc \o "'")
  ELSE [ok |-> TRUE, i |-> i + 1, v |-> acc]
At(s, i) == IF i <= Len(s) THEN Chr(s, i) ELSE ""

PIri(s, i) ==
  IF At(s, i) # "'" THEN [ok |-> TRUE, i |-> i, v |-> ""]
  ELSE LET q == Quoted(s, i + 1, "") IN IF q.ok /\ At(s, q.i) = "#" THEN [q EXCEPT !.i = @ + 1] ELSE [ok |-> TRUE, i |-> i, v |-> ""]
PSheet(s, i0) ==
  LET i == IF At(s, i0) = "$" THEN i0 + 1 ELSE i0
      r == IF At(s, i) = "'" THEN Quoted(s, i + 1, "")
           ELSE LET j == SkipNotIn(s, i, NotInName) IN [ok |-> TRUE, i |-> j, v |-> SubSeq(s, i, j - 1)]
  IN IF r.ok /\ At(s, r.i) = "." THEN [r EXCEPT !.i = @ + 1] ELSE Fail
PCol(s, i0) ==
  LET i == IF At(s, i0) = "$" THEN i0 + 1 ELSE i0
      j == SkipIn(s, i, LetterSet)
  IN IF j = i \/ j - i > 6 THEN Fail ELSE [ok |-> TRUE, i |-> j, v |-> (IF i > i0 THEN "$" ELSE "") \o ToString(ColNum(SubSeq(s, i, j - 1)))]
PRow(s, i0) ==
  LET i == IF At(s, i0) = "$" THEN i0 + 1 ELSE i0
      j == SkipDigits(s, i)
  IN IF j = i \/ j - i > 9 \/ ToInt(SubSeq(s, i, j - 1)) = 0 THEN Fail
     ELSE [ok |-> TRUE, i |-> j, v |-> (IF i > i0 THEN "$" ELSE "") \o ToString(ToInt(SubSeq(s, i, j - 1)) - 1)]
PChar(s, i, c) == IF At(s, i) = c THEN [ok |-> TRUE, i |-> i + 1, v |-> c] ELSE Fail

\* [ok, i, v] where v = <<iri, table, row, col, to_table, to_row, to_col>>
NoRef == [ok |-> FALSE, i |-> 0, v |-> <<>>]
PCellRange(s, i0) ==
  LET a == PIri(s, i0)
      b == IF a.ok THEN PSheet(s, a.i) ELSE Fail
      c == IF b.ok THEN PCol(s, b.i) ELSE Fail
      d == IF c.ok THEN PRow(s, c.i) ELSE Fail
      e == IF d.ok THEN PChar(s, d.i, ":") ELSE Fail
      f == IF e.ok THEN PSheet(s, e.i) ELSE Fail
      g == IF f.ok THEN PCol(s, f.i) ELSE Fail
      h == IF g.ok THEN PRow(s, g.i) ELSE Fail
  IN IF h.ok THEN [ok |-> TRUE, i |-> h.i, v |-> <<a.v, b.v, d.v, c.v, f.v, h.v, g.v>>] ELSE NoRef
PCellRef(s, i0) ==
  LET a == PIri(s, i0)
      b == PSheet(s, a.i)
      c == IF b.ok THEN PCol(s, b.i) ELSE Fail
      d == IF c.ok THEN PRow(s, c.i) ELSE Fail
  IN IF d.ok THEN [ok |-> TRUE, i |-> d.i, v |-> <<a.v, b.v, d.v, c.v>>] ELSE NoRef
PColRange(s, i0) ==
  LET a == PIri(s, i0)
      b == PSheet(s, a.i)
      c == IF b.ok THEN PCol(s, b.i) ELSE Fail
      e == IF c.ok THEN PChar(s, c.i, ":") ELSE Fail
      f == IF e.ok THEN PSheet(s, e.i) ELSE Fail
      g == IF f.ok THEN PCol(s, f.i) ELSE Fail
  IN IF g.ok THEN [ok |-> TRUE, i |-> g.i, v |-> <<a.v, b.v, c.v, f.v, g.v>>] ELSE NoRef
PRowRange(s, i0) ==
  LET a == PIri(s, i0)
      b == PSheet(s, a.i)
      c == IF b.ok THEN PRow(s, b.i) ELSE Fail
      e == IF c.ok THEN PChar(s, c.i, ":") ELSE Fail
      f == IF e.ok THEN PSheet(s, e.i) ELSE Fail
      g == IF f.ok THEN PRow(s, f.i) ELSE Fail
  IN IF g.ok THEN [ok |-> TRUE, i |-> g.i, v |-> <<a.v, b.v, c.v, f.v, g.v>>] ELSE NoRef
Whole(r, s) == IF r.ok /\ r.i = Len(s) + 1 THEN <<r.v>> ELSE <<>>
ParseRef(kind, s) ==
  CASE kind = "cell" -> Whole(PCellRef(s, 1), s)
    [] kind = "cells" -> Whole(PCellRange(s, 1), s)
    [] kind = "cols" -> Whole(PColRange(s, 1), s)
    [] kind = "rows" -> Whole(PRowRange(s, 1), s)

RECURSIVE PRanges(_, _)
PRanges(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF At(s, i) = " " THEN PRanges(s, i + 1)
  ELSE LET r == PCellRange(s, i) IN IF r.ok THEN <<r.v>> \o PRanges(s, r.i) ELSE << <<"invalid">> >>
ParseRanges(s) == PRanges(s, 1)
NormRanges(l) == l

(* ---- formatting (reference definition; the library may quote more than needed) ---- *)
RECURSIVE DoubleQuotes(_)
DoubleQuotes(s) == IF s = "" THEN "" ELSE (IF Chr(s, 1) = "'" THEN "''" ELSE Chr(s, 1)) \o DoubleQuotes(From(s, 2))
TabText(t, abs) == IF t = "" THEN "" ELSE (IF abs THEN "$" ELSE "") \o "'" \o DoubleQuotes(t) \o "'"
IriText(x) == IF x = "" THEN "" ELSE "'" \o DoubleQuotes(x) \o "'#"
AnyAbs(l) == \E i \in DOMAIN l : IsAbs(l[i])
FormatRef(kind, v) ==
  CASE kind = "cell" -> IriText(v[1]) \o TabText(v[2], AnyAbs(v)) \o "." \o ColText(v[4]) \o RowText(v[3])
    [] kind = "cells" -> IriText(v[1]) \o TabText(v[2], AnyAbs(v)) \o "." \o ColText(v[4]) \o RowText(v[3]) \o ":"
                         \o TabText(v[5], AnyAbs(v)) \o "." \o ColText(v[7]) \o RowText(v[6])
    [] kind = "cols" -> IriText(v[1]) \o TabText(v[2], AnyAbs(v)) \o "." \o ColText(v[3]) \o ":" \o TabText(v[4], AnyAbs(v)) \o "." \o ColText(v[5])
    [] kind = "rows" -> IriText(v[1]) \o TabText(v[2], AnyAbs(v)) \o "." \o RowText(v[3]) \o ":" \o TabText(v[4], AnyAbs(v)) \o "." \o RowText(v[5])

(* ---- operations on references ---- *)
InBr(x) == Len(x) >= 2 /\ Chr(x, 1) = "[" /\ Chr(x, Len(x)) = "]"
Inner(x) == SubSeq(x, 2, Len(x) - 1)
Mk(abs, n) == (IF abs THEN "$" ELSE "") \o ToString(n)
Strip(x) == NumPart(x)
SetAbs(x, b) == (IF b THEN "$" ELSE "") \o Strip(x)
SetNum(x, n) == AbsMark(x) \o n
Pos(kind, f) == LET names == CASE kind = "cell" -> <<"iri", "table", "row", "col">>
                               [] kind \in {"cells", "span"} -> <<"iri", "table", "row", "col", "to_table", "to_row", "to_col">>
                               [] kind = "cols" -> <<"iri", "table", "col", "to_table", "to_col">>
                               [] kind = "rows" -> <<"iri", "table", "row", "to_table", "to_row">>
                IN First(names, LAMBDA x : x = f)
Lines2(kind, S) == {i \in {Pos(kind, f) : f \in S} : i # 0}
AbsAll(kind, v, S) == [i \in DOMAIN v |-> IF i \in Lines2(kind, S) THEN SetAbs(v[i], TRUE) ELSE v[i]]
Modify(kind, v, m) ==
  CASE m[1] = "absolute" -> AbsAll(kind, v, {"row", "col", "to_row", "to_col"})
    [] m[1] \in {"absolute_row", "absolute_rows"} -> AbsAll(kind, v, {"row", "to_row"})
    [] m[1] \in {"absolute_col", "absolute_cols"} -> AbsAll(kind, v, {"col", "to_col"})
    [] m[1] \in {"iri", "table", "to_table"} -> [v EXCEPT ![Pos(kind, m[1])] = m[2]]
    [] m[1] \in {"row", "col", "to_row", "to_col"} -> [v EXCEPT ![Pos(kind, m[1])] = SetNum(@, m[2])]
    [] m[1] = "row_abs" -> [v EXCEPT ![Pos(kind, "row")] = SetAbs(@, m[2] = "true")]
    [] m[1] = "col_abs" -> [v EXCEPT ![Pos(kind, "col")] = SetAbs(@, m[2] = "true")]
    [] m[1] = "to_row_abs" -> [v EXCEPT ![Pos(kind, "to_row")] = SetAbs(@, m[2] = "true")]
    [] m[1] = "to_col_abs" -> [v EXCEPT ![Pos(kind, "to_col")] = SetAbs(@, m[2] = "true")]
Ctor(kind, t, n) ==
  CASE kind = "cell" -> <<"", t, Mk(FALSE, n[1]), Mk(FALSE, n[2])>>
    [] kind = "cells" -> <<"", t, Mk(FALSE, n[1]), Mk(FALSE, n[2]), "", Mk(FALSE, n[3]), Mk(FALSE, n[4])>>
    [] kind = "span" -> <<"", "", Mk(FALSE, n[1]), Mk(FALSE, n[2]), "", Mk(FALSE, n[1] + n[3] - 1), Mk(FALSE, n[2] + n[4] - 1)>>
    [] OTHER -> <<"", "", Mk(FALSE, n[1]), "", Mk(FALSE, n[2])>>
RefVal(x) == ToInt(Strip(x))
HasPt(kind, v, p) ==
  LET rows == IF kind = "cols" THEN TRUE ELSE RefVal(v[Pos(kind, "row")]) <= p[1] /\ p[1] <= RefVal(v[Pos(kind, "to_row")])
      cols == IF kind = "rows" THEN TRUE ELSE RefVal(v[Pos(kind, "col")]) <= p[2] /\ p[2] <= RefVal(v[Pos(kind, "to_col")])
  IN rows /\ cols
\* the reference a formula helper is asked for; the table of the second corner may be left out
FnRef(n, t, ra, ca, ra2, ca2) ==
  IF Len(n) = 2 THEN <<"", t, Mk(ra, n[1]), Mk(ca, n[2])>>
  ELSE <<"", t, Mk(ra, n[1]), Mk(ca, n[2]), "", Mk(ra2, n[3]), Mk(ca2, n[4])>>
SameRef(v, w) == v = w \/ (Len(v) = 7 /\ Len(w) = 7 /\ w[5] = w[2] /\ [w EXCEPT ![5] = ""] = v)
FormulaIs(x, n, want) == InBr(x) /\ LET r == ParseRef(IF Len(n) = 2 THEN "cell" ELSE "cells", Inner(x)) IN r # <<>> /\ SameRef(want, r[1])
\* the grammar allows a colon in an unquoted table name; such a text may also be rejected
RECURSIVE Colons(_, _, _)
Colons(s, i, q) == IF i > Len(s) THEN 0 ELSE LET c == Chr(s, i) IN (IF c = ":" /\ ~q THEN 1 ELSE 0) + Colons(s, i + 1, IF c = "'" THEN ~q ELSE q)
\* numbers beyond the integers of this specification
Oversize(s) == \E i \in 1..Len(s) : (i + 6 <= Len(s) /\ SkipIn(s, i, LetterSet) >= i + 7) \/ (i + 9 <= Len(s) /\ SkipDigits(s, i) >= i + 10)
RefOps == {"ref", "ref_parse", "ref_list", "ref_make", "ref_has", "ref_name", "ref_fn", "ref_macro"}
RefCheck(e) ==
  CASE e.op = "ref_make" /\ e.kind \in {"cols", "rows"} /\ e.n[1] > e.n[2] -> IF e.res = "panic" THEN <<>> ELSE <<"not refused", e.op>>
    [] e.op = "ref_make" /\ e.kind = "span" /\ (e.n[3] = 0 \/ e.n[4] = 0) -> IF e.res = "panic" THEN <<>> ELSE <<"not refused", e.op>>
    [] e.op = "ref_make" /\ e.kind = "cells" /\ (e.n[1] > e.n[3] \/ e.n[2] > e.n[4]) -> IF e.res = "panic" THEN <<>> ELSE <<"not refused", e.op>>
    [] e.res # "ok" -> <<"failed", e.op, e.res>>
    [] e.op = "ref" ->
         IF e.out.acc # e.v THEN <<"accessors", e.v, e.out.acc>>
         ELSE IF ParseRef(e.kind, e.out.text) # <<e.v>> THEN <<"text", e.v, e.out.text, ParseRef(e.kind, e.out.text)>>
         ELSE IF e.out.back # <<e.v>> THEN <<"parsed back", e.out.text, e.v, e.out.back>>
         ELSE IF e.out.try # <<e.v>> THEN <<"converted back", e.out.text, e.v, e.out.try>>
         ELSE IF e.out.formula # "[" \o e.out.text \o "]" THEN <<"formula", e.out.text, e.out.formula>>
         ELSE <<>>
    [] e.op = "ref_parse" /\ Oversize(e.x) -> <<>>
    [] e.op = "ref_parse" /\ Colons(e.x, 1, FALSE) > (IF e.kind = "cell" THEN 0 ELSE 1) ->
         IF e.out \in {<<>>, ParseRef(e.kind, e.x)} THEN <<>> ELSE <<"parse", e.kind, e.x, e.out>>
    [] e.op = "ref_parse" -> IF e.out # ParseRef(e.kind, e.x) THEN <<"parse", e.kind, e.x, ParseRef(e.kind, e.x), e.out>> ELSE <<>>
    [] e.op = "ref_list" -> LET l == ParseRanges(e.x)
                            IN IF (\E i \in DOMAIN l : l[i] = <<"invalid">>) \/ e.out = <<l>> THEN <<>> ELSE <<"list", e.x, l, e.out>>
    [] e.op = "ref_make" -> LET v == FoldLeft(LAMBDA a, m : Modify(e.kind, a, m), Ctor(e.kind, e.t, e.n), e.mods)
                            IN IF e.out # v THEN <<"reference", v, e.out>> ELSE <<>>
    [] e.op = "ref_has" -> LET l == [i \in DOMAIN e.pts |-> HasPt(e.kind, e.v, e.pts[i])] IN IF e.out # l THEN <<"contains", e.v, e.pts, l, e.out>> ELSE <<>>
    [] e.op = "ref_name" -> IF e.out # <<ColText(e.x), RowText(e.x)>> THEN <<"name", e.x, <<ColText(e.x), RowText(e.x)>>, e.out>> ELSE <<>>
    [] e.op = "ref_fn" ->
         LET w == FnRef(e.n, e.t, e.m \in {"r", "a"}, e.m \in {"c", "a"}, e.m \in {"r", "a"}, e.m \in {"c", "a"})
         IN IF FormulaIs(e.out, e.n, w) THEN <<>> ELSE <<"formula helper", e.f, w, e.out>>
    [] e.op = "ref_macro" ->
         LET b(i) == Chr(e.ab, i) = "1"
             w == IF Len(e.n) = 2 THEN FnRef(e.n, e.t, b(1), b(2), FALSE, FALSE) ELSE FnRef(e.n, e.t, b(1), b(2), b(3), b(4))
         IN IF FormulaIs(e.out[2], e.n, w) /\ FormulaIs("[" \o e.out[1] \o "]", e.n, w) THEN <<>> ELSE <<"macro", w, e.out>>
=============================================================================
