------------------------------- MODULE Design --------------------------------
(***************************************************************************)
(* Design level check: a reference writer.  RefTable(sh) is the simplest   *)
(* correct serialisation of a sheet (no run lengths, no gaps skipped).     *)
(* Invariants evaluated by TLC on every reachable sheet of a bounded model *)
(* show that the meaning the specification gives to files (Denote) and the *)
(* acceptance conditions (SaveDiff, ReadDiff) agree with the sheets, and   *)
(* that SaveDiff is not vacuous: every single dropped token is rejected.   *)
(***************************************************************************)
EXTENDS Book

\* lexical form of a value, inverse of TokVal
Secs(v, i) == v[i] \o ":" \o v[i + 1] \o ":" \o v[i + 2]
RECURSIVE Zeros(_, _)
Zeros(s, n) == IF Len(s) >= n THEN s ELSE Zeros("0" \o s, n)
ValTok(v, t) ==
  CASE v.k = "empty" -> t
    [] v.k = "bool" -> [t EXCEPT !.vt = "boolean", !.val = v.v[1]]
    [] v.k = "num" -> [t EXCEPT !.vt = "float", !.num = v.v[1]]
    [] v.k = "pct" -> [t EXCEPT !.vt = "percentage", !.num = v.v[1]]
    [] v.k = "cur" -> [t EXCEPT !.vt = "currency", !.num = v.v[1], !.cur = <<v.v[2]>>]
    [] v.k = "dt" -> [t EXCEPT !.vt = "date", !.val = Zeros(v.v[1], 4) \o "-" \o v.v[2] \o "-" \o v.v[3] \o "T" \o Secs(v.v, 4) \o "." \o v.v[7]]
    [] v.k = "dur" -> [t EXCEPT !.vt = "time", !.val = (IF v.v[1] = "-" THEN "-" ELSE "") \o "PT" \o v.v[2] \o "H" \o v.v[3] \o "M" \o v.v[4] \o "." \o v.v[5] \o "S"]
    [] OTHER -> [t EXCEPT !.vt = "string", !.txt = v]
EmptyTok == [cov |-> FALSE, n |-> 1, vt |-> "", val |-> "", num |-> "", cur |-> <<>>, sv |-> <<>>, txt |-> [k |-> "text", v |-> <<"">>],
             f |-> <<>>, st |-> <<>>, va |-> <<>>, sp |-> <<1, 1>>, mx |-> <<1, 1>>, ann |-> <<>>, df |-> <<>>]
CellTok(c) == ValTok(c.v, [EmptyTok EXCEPT !.f = c.f, !.st = c.st, !.va = c.va, !.sp = c.sp, !.mx = c.mx, !.ann = c.ann, !.df = c.df, !.n = c.rep])
\* positions of a row that are taken by the repetition of an earlier cell
Hidden(sh, r, c) == \E p \in DOMAIN sh.cells : p[1] = r /\ p[2] < c /\ c < p[2] + sh.cells[p].rep
CoveredAt(sh, r, c) == \E i \in DOMAIN Spans(sh) : InSpan(Spans(sh)[i], r, c)
RowToks(sh, r, w) ==
  FoldLeft(LAMBDA a, c : IF Hidden(sh, r, c) THEN a
                         ELSE Append(a, [CellTok(CellAt(sh, <<r, c>>)) EXCEPT !.cov = CoveredAt(sh, r, c)]), <<>>, [i \in 1..w |-> i - 1])

\* groups opening before line i (the widest first) and closing after it
Opens(gs, i) == SetToSortSeq({k \in DOMAIN gs : gs[k][1] = i}, LAMBDA a, b : gs[a][2] > gs[b][2] \/ (gs[a][2] = gs[b][2] /\ a < b))
Closes(gs, i) == Cardinality({k \in DOMAIN gs : gs[k][2] = i})
Wrap(gs, h, i, tok) ==
  [k \in DOMAIN Opens(gs, i) |-> [t |-> "g+", disp |-> gs[Opens(gs, i)[k]][3]]]
  \o (IF h # <<>> /\ h[1] <= i /\ i <= h[2] THEN << [t |-> "h+"], tok, [t |-> "h-"] >> ELSE <<tok>>)
  \o [k \in 1..Closes(gs, i) |-> [t |-> "g-"]]
\* a name for every length, so that the style table carries it
StName(a) == IF a.len = "" THEN a.st ELSE IF a.st = <<>> THEN <<"auto-" \o a.len>> ELSE <<a.st[1] \o "-" \o a.len>>
StTable(S) == SetToSeq({<<StName(x.a)[1], FALSE, x.a.len>> : x \in {y \in S : y.a.len # ""}})
LineTok(a) == [t |-> "line", n |-> 1, st |-> StName(a), cs |-> a.cs, vis |-> a.vis]
Extent(S, gs, h, base) == Max({base} \cup {x.hi + 1 : x \in S} \cup {gs[k][2] + 1 : k \in DOMAIN gs} \cup (IF h = <<>> THEN {} ELSE {h[2] + 1}))

Width(sh) == Extent(sh.cols, sh.cg, sh.hc, Max({1} \cup {p[2] + Mx(sh.cells[p].rep, sh.cells[p].sp[2]) : p \in DOMAIN sh.cells}))
Height(sh) == Extent(sh.rows, sh.rg, sh.hr, Max({1} \cup {p[1] + sh.cells[p].sp[1] : p \in DOMAIN sh.cells}))
RowHiddenBy(sh, r) == \E x \in RowRepIdx(sh) : x.lo < r /\ r < x.lo + x.a.rep
RefTable(sh) ==
  LET w == Width(sh)
      h == Height(sh)
      col(i) == Wrap(sh.cg, sh.hc, i, LineTok(AttrAt(sh.cols, i)))
      row(i) == IF RowHiddenBy(sh, i) THEN <<>>
                ELSE LET a == AttrAt(sh.rows, i)
                     IN Wrap(sh.rg, sh.hr, i, [t |-> "line", n |-> a.rep, st |-> StName(a), cs |-> a.cs, vis |-> a.vis, cells |-> RowToks(sh, i, w)])
  IN [name |-> sh.name, st |-> sh.st, disp |-> sh.disp, print |-> sh.print,
      pr |-> IF sh.pr = <<>> THEN <<>> ELSE <<FoldLeft(LAMBDA a, x : IF a = "" THEN FormatRef("cells", x) ELSE a \o " " \o FormatRef("cells", x), "", sh.pr)>>,
      cols |-> FoldLeft(LAMBDA a, i : a \o col(i), <<>>, [i \in 1..w |-> i - 1]),
      rows |-> FoldLeft(LAMBDA a, i : a \o row(i), <<>>, [i \in 1..h |-> i - 1]), xt |-> <<>>]
RefDoc(sh) == [ok |-> TRUE, why |-> "", tables |-> <<RefTable(sh)>>, rst |-> StTable(sh.rows), cst |-> StTable(sh.cols), facts |-> <<>>]
\* the reference writer renames styles that carry a length
AllShared(S) == {x.a.st : x \in {y \in S : y.a.len # "" /\ y.a.st # <<>>}}

RefSaveDiff(sh) == SaveDiff(sh, RefTable(sh), RefDoc(sh), << >>, AllShared(sh.rows), AllShared(sh.cols))
\* spans do not meet repetitions, and repeated rows with own groups inside of the repetition are not part of the domain
Simple(sh) == (Spans(sh) = <<>> \/ (RowRepIdx(sh) = {} /\ \A p \in DOMAIN sh.cells : sh.cells[p].rep = 1)) /\ (RowRepIdx(sh) = {} \/ (sh.rg = <<>> /\ sh.hr = <<>> /\ \A x, y \in sh.rows : x.a.rep > 1 /\ y # x => ~(y.lo < x.lo + x.a.rep /\ y.hi > x.lo)))
WriterAgrees(sh) == (~MustRefuse(sh) /\ Simple(sh)) => RefSaveDiff(sh) = <<>>
\* dropping any one data token from the table is noticed
DropTok(tb, k, j) == [tb EXCEPT !.rows[k].cells[j] = [EmptyTok EXCEPT !.n = @ + tb.rows[k].cells[j].n - 1, !.cov = tb.rows[k].cells[j].cov]]
NotVacuous(sh) ==
  LET tb == RefTable(sh) IN
  (~MustRefuse(sh) /\ Simple(sh)) =>
    \A k \in DOMAIN tb.rows : tb.rows[k].t = "line" =>
      \A j \in DOMAIN tb.rows[k].cells :
        [tb.rows[k].cells[j] EXCEPT !.n = 1, !.cov = FALSE] # EmptyTok
          => SaveDiff(sh, DropTok(tb, k, j), RefDoc(sh), << >>, AllShared(sh.rows), AllShared(sh.cols)) # <<>>
Nested(gs) == \A i, j \in DOMAIN gs : GContains(gs[i], gs[j]) \/ GContains(gs[j], gs[i]) \/ GDisjoint(gs[i], gs[j])
WellFormed(sh) == Nested(sh.rg) /\ Nested(sh.cg) /\ \A x, y \in sh.rows : x # y => x.hi < y.lo \/ y.hi < x.lo

\* an attribute edit changes nothing but its own index, a cell edit nothing but its own position
Local(e, a, b) ==
  /\ e.op \in AttrOps => /\ a.cells = b.cells
                         /\ \A i \in (Points(a.rows) \cup Points(b.rows)) : AttrAt(a.rows, i) # AttrAt(b.rows, i) => i = e.i
                         /\ \A i \in (Points(a.cols) \cup Points(b.cols)) : AttrAt(a.cols, i) # AttrAt(b.cols, i) => i = e.i
  /\ e.op \in CellOps => /\ a.rows = b.rows /\ a.cols = b.cols
                         /\ \A p \in DOMAIN a.cells \cup DOMAIN b.cells : CellAt(a, p) # CellAt(b, p) => p = <<e.r, e.c>>

(* ---- registries ---- *)
\* the reference file of a registry: every fact that belongs into a file, as files have it
RefFacts(bk, fmt) == LET E == {f \in bk.reg : InFile(f, fmt)} IN SetToSeq({Cmp(f, fmt, TRUE) : f \in E})
RegWriter(bk, fmt) == FileFactsDiff(bk, [fmt |-> fmt, facts |-> RefFacts(bk, fmt)])
OneDefault(bk) == Cardinality({FKey(Norm(f)) : f \in bk.reg}) = Cardinality(bk.reg)
RegAgrees(bk) == OneDefault(bk) => \A fmt \in {"ods", "fods"} : RegWriter(bk, fmt) = <<>>
\* a fact dropped from the file, or altered in it, is noticed
RegNotVacuous(bk) ==
  OneDefault(bk) => LET l == RefFacts(bk, "ods") IN
    \A i \in DOMAIN l :
      /\ FileFactsDiff(bk, [fmt |-> "ods", facts |-> RemoveAt(l, i)]) # <<>>
      /\ FileFactsDiff(bk, [fmt |-> "ods", facts |-> [l EXCEPT ![i].t = @ \o "?"]]) # <<>>
RegUnique(bk) == Cardinality({FKey(f) : f \in bk.reg}) = Cardinality(bk.reg)
\* an operation on a registry touches one entry; storing without a name adds one
RegLocal(e, A, Z) ==
  /\ \A f \in (A \ Z) \cup (Z \ A) : Has(e, "k") => f.k = e.k /\ (e.n # "" => f.n = e.n)
  /\ e.op = "reg_put" /\ e.n = "" => A \subseteq Z /\ Cardinality(Z) = Cardinality(A) + 1
  /\ e.op = "reg_get" => A = Z
  /\ e.op = "reg_del" => Z \subseteq A /\ Cardinality(A) - Cardinality(Z) <= 1
=============================================================================
