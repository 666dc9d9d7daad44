------------------------------- MODULE Denote --------------------------------
(***************************************************************************)
(* What a table element means, by the counting rules of the standard: rows *)
(* and columns are numbered by the elements and their repeat counts, cells *)
(* by their order in the row, groups and header blocks enclose the rows    *)
(* and columns between their tags.  The tokens come from an independent    *)
(* reading of the XML; nothing here knows how the library writes or reads. *)
(***************************************************************************)
EXTENDS Sheet, Lexical

\* resolved length of a row / column style: <<name, optimal, length>>
StyleLen(tab, st) ==
  IF st = <<>> THEN ""
  ELSE LET i == First(tab, LAMBDA x : x[1] = st[1]) IN IF i = 0 THEN "" ELSE IF tab[i][2] THEN "" ELSE tab[i][3]

Tok(t, tab) == [st |-> t.st, cs |-> t.cs, vis |-> t.vis, len |-> StyleLen(tab, t.st), rep |-> 1]

\* fold over column or row tokens: position counter, attribute intervals, groups, headers
Lines0 == [i |-> 0, at |-> {}, open |-> <<>>, gs |-> <<>>, hs |-> {}, ho |-> 0, ok |-> TRUE]
LinesStep(tab, a, t) ==
  CASE t.t = "line" -> [a EXCEPT !.i = @ + t.n, !.at = @ \cup {[lo |-> a.i, hi |-> a.i + t.n - 1, a |-> Tok(t, tab)]},
                                 !.hs = IF a.ho > 0 THEN @ \cup {<<a.i, a.i + t.n - 1>>} ELSE @]
    [] t.t = "g+" -> [a EXCEPT !.open = Append(@, <<a.i, t.disp>>)]
    [] t.t = "g-" -> IF a.open = <<>> THEN [a EXCEPT !.ok = FALSE]
                     ELSE LET g == a.open[Len(a.open)]
                          IN [a EXCEPT !.open = SubSeq(@, 1, Len(@) - 1),
                                       !.gs = IF g[1] < a.i THEN Append(@, <<g[1], a.i - 1, g[2]>>) ELSE @]
    [] t.t = "h+" -> [a EXCEPT !.ho = @ + 1, !.ok = @ /\ a.ho = 0]
    [] t.t = "h-" -> [a EXCEPT !.ho = @ - 1]
Lines(toks, tab) == FoldSeq(LAMBDA t, a : LinesStep(tab, a, t), Lines0, toks)
\* the header block; contiguous blocks only
HeaderOf(hs) == IF hs = {} THEN <<>> ELSE <<Min({x[1] : x \in hs}), Max({x[2] : x \in hs})>>
HeaderContiguous(hs) == hs = {} \/ LET b == HeaderOf(hs)
                                   IN b[2] - b[1] + 1 = FoldSet(LAMBDA x, n : n + x[2] - x[1] + 1, 0, hs)

\* cells of one row token
CellX(t) == [v |-> TokVal(t).val, f |-> t.f, st |-> t.st, va |-> t.va, sp |-> t.sp, mx |-> t.mx,
             rep |-> 1, ann |-> t.ann, df |-> t.df]
RowCells(r, rn, cells) ==
  FoldSeq(LAMBDA t, a : [c |-> a.c + t.n, ok |-> a.ok /\ TokVal(t).ok /\ t.n > 0,
                         l |-> Append(a.l, [r1 |-> r, r2 |-> r + rn - 1, c1 |-> a.c, c2 |-> a.c + t.n - 1,
                                            cov |-> t.cov, x |-> CellX(t)])],
          [c |-> 0, ok |-> TRUE, l |-> <<>>], cells)
GridStep(a, t) ==
  IF t.t # "line" THEN a
  ELSE LET rc == RowCells(a.r, t.n, t.cells)
       IN [r |-> a.r + t.n, ok |-> a.ok /\ rc.ok, l |-> a.l \o rc.l, w |-> Mx(a.w, rc.c)]
Grid(toks) == FoldSeq(LAMBDA t, a : GridStep(a, t), [r |-> 0, ok |-> TRUE, l |-> <<>>, w |-> 0], toks)

(* the denotation of a table *)
Den(tb, doc) ==
  LET C == Lines(tb.cols, doc.cst)
      W == Lines(tb.rows, doc.rst)
      G == Grid(tb.rows)
  IN [ok |-> C.ok /\ W.ok /\ G.ok /\ C.open = <<>> /\ W.open = <<>> /\ G.w <= C.i,
      cols |-> C.at, cg |-> C.gs, hc |-> HeaderOf(C.hs), hok |-> HeaderContiguous(C.hs) /\ HeaderContiguous(W.hs),
      rows |-> W.at, rg |-> W.gs, hr |-> HeaderOf(W.hs), grid |-> G.l, ncols |-> C.i, nrows |-> W.i, wide |-> G.w]

NoCell(x) == x = Cell0
StyleOnly(x) == x.st # <<>> /\ [x EXCEPT !.st = <<>>] = Cell0
Valueless(x) == x.v.k = "empty" /\ x.f = <<>>

(* ---- piecewise constant functions on rectangles ---- *)
Covers(q, r, c) == q.r1 <= r /\ r <= q.r2 /\ q.c1 <= c /\ c <= q.c2
AtPoint(S, r, c) == {q.x : q \in {p \in S : Covers(p, r, c)}}
Single(S) == \A q \in S : q.r1 = q.r2 /\ q.c1 = q.c2
Key(q) == [p |-> <<q.r1, q.c1>>, x |-> q.x]
SameGrid(S, T) ==
  IF Single(S) /\ Single(T) THEN {Key(q) : q \in S} = {Key(q) : q \in T}
  ELSE LET rb == {q.r1 : q \in S \cup T} \cup {q.r2 + 1 : q \in S \cup T}
           cb == {q.c1 : q \in S \cup T} \cup {q.c2 + 1 : q \in S \cup T}
       IN \A r \in rb : LET Sr == {q \in S : q.r1 <= r /\ r <= q.r2}
                            Tr == {q \in T : q.r1 <= r /\ r <= q.r2}
                        IN (Sr # {} \/ Tr # {}) => \A c \in cb : AtPoint(Sr, r, c) = AtPoint(Tr, r, c)
GridDiff(S, T) ==
  LET rb == {q.r1 : q \in S \cup T} \cup {q.r2 + 1 : q \in S \cup T}
      cb == {q.c1 : q \in S \cup T} \cup {q.c2 + 1 : q \in S \cup T}
      bad == {<<r, c>> \in rb \X cb : AtPoint(S, r, c) # AtPoint(T, r, c)}
      p == CHOOSE p \in bad : \A q \in bad : LexEq(p, q)
  IN <<"at", p, "expected", AtPoint(S, p[1], p[2]), "found", AtPoint(T, p[1], p[2])>>
=============================================================================
