-------------------------------- MODULE Book ---------------------------------
(***************************************************************************)
(* Workbooks: the list of sheets (with places left by detached sheets),    *)
(* sheets outside of any workbook, default styles, files written and read. *)
(* Step(S, e) is the transition for one observed operation e:              *)
(*   [s |-> next state, bad |-> <<>> or the reason the observation is wrong]*)
(***************************************************************************)
EXTENDS Persist, Facts

\* items: settings in the order of the file, own: all of them are known (a book read from a file without settings gets initial ones)
Book0 == [sheets |-> <<>>, def |-> << >>, reg |-> {}, items |-> <<>>, own |-> FALSE]
WithFacts(e) == Get(e, "facts", FALSE)
St0 == [books |-> << >>, free |-> << >>, det |-> << >>, clip |-> << >>, files |-> << >>, dead |-> FALSE]
Hole == [Sheet0("") EXCEPT !.name = "(detached)", !.xt = <<"hole">>]
IsHole(sh) == sh.xt = <<"hole">>
HasHole(bk) == \E i \in DOMAIN bk.sheets : IsHole(bk.sheets[i])

Out(s, bad) == [s |-> s, bad |-> bad]
Refused(e) == e.res \in {"panic", "err"}
\* the operation must be refused and leave everything as it was
Refuse(S, e) == Out(S, IF Refused(e) THEN <<>> ELSE <<"not refused", e.op>>)
Done(S, e) == Out(S, IF e.res = "ok" THEN <<>> ELSE <<"failed", e.op, e.res>>)
\* outcome was decided: refused / done / done with expected answer
Ans(S, e, exp) == Out(S, IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE IF e.out # exp THEN <<"answer", e.op, exp, e.out>> ELSE <<>>)

B(e) == Get(e, "b", 0)
WithBook(S, b, bk) == [S EXCEPT !.books = (b :> bk) @@ @]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- an operation on one sheet, wherever it is ---- *)
SheetStep(S, e, sh, put(_, _)) ==
  IF e.op \in QueryOps
  THEN Out(S, IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE SheetQuery(sh, e))
  ELSE LET r == SheetOp(sh, S.clip, e)
       IN IF ~r.ok THEN Refuse(S, e)
          ELSE LET S2 == put([S EXCEPT !.clip = r.clip], r.sh)
               IN IF r.out = <<>> THEN Done(S2, e) ELSE Ans(S2, e, r.out[1])
OnSheet(S, e) ==
  IF Has(e, "d")
  THEN IF e.d \in DOMAIN S.free THEN SheetStep(S, e, S.free[e.d], LAMBDA T, sh : [T EXCEPT !.free[e.d] = sh])
       ELSE IF e.d \in DOMAIN S.det THEN SheetStep(S, e, S.det[e.d].sh, LAMBDA T, sh : [T EXCEPT !.det[e.d].sh = sh])
       ELSE Refuse(S, e)
  ELSE IF B(e) \notin DOMAIN S.books THEN Refuse(S, e)
  ELSE LET bk == S.books[B(e)]
           n == e.s + 1
       IN IF n > Len(bk.sheets) THEN Refuse(S, e)
          ELSE IF IsHole(bk.sheets[n]) THEN Refuse(S, e)
          ELSE SheetStep(S, e, bk.sheets[n], LAMBDA T, sh : [T EXCEPT !.books[B(e)].sheets[n] = sh])

(* ---- the list of sheets ---- *)
InsertAtPos(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* data free copy: everything but the cells
NoData(sh) == [sh EXCEPT !.cells = << >>]
ListOps == {"new", "push", "insert", "remove", "clone", "clone_no_data", "push_free", "insert_free", "detach", "attach",
            "sheet_idx", "q_names", "q_book", "def_style"}
ListStep(S, e) ==
  LET b == B(e)
      has == b \in DOMAIN S.books
      bk == IF has THEN S.books[b] ELSE Book0
      n == Len(bk.sheets)
      put(x) == WithBook(S, b, x)
  IN
  CASE e.op = "new" -> IF e.res # "ok" THEN Done(S, e)
                       ELSE Out(put([Book0 EXCEPT !.def = Pairs(e.out.def), !.reg = Reg0(e)]), NewDiff(e))
    [] ~has -> Refuse(S, e)
    [] e.op = "push" -> Done(put([bk EXCEPT !.sheets = Append(@, Sheet0(e.x))]), e)
    [] e.op = "insert" -> IF e.i > n THEN Refuse(S, e) ELSE Done(put([bk EXCEPT !.sheets = InsertAtPos(@, e.i + 1, Sheet0(e.x))]), e)
    [] e.op = "remove" ->
         IF e.i >= n THEN Refuse(S, e) ELSE IF IsHole(bk.sheets[e.i + 1]) THEN Refuse(S, e)
         ELSE LET sh == bk.sheets[e.i + 1]
                  S2 == put([bk EXCEPT !.sheets = RemoveAt(@, e.i + 1)])
                  S3 == IF Has(e, "to") THEN [S2 EXCEPT !.free = (e.to :> sh) @@ @] ELSE S2
              IN Out(S3, IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE SheetDiff(sh, e.out))
    [] e.op \in {"clone", "clone_no_data"} ->
         IF e.i >= n THEN Refuse(S, e) ELSE IF IsHole(bk.sheets[e.i + 1]) THEN Refuse(S, e)
         ELSE LET sh == bk.sheets[e.i + 1]
              IN Done([S EXCEPT !.free = (e.to :> (IF e.op = "clone" THEN sh ELSE NoData(sh))) @@ @], e)
    [] e.op = "push_free" ->
         IF e.from \notin DOMAIN S.free THEN Refuse(S, e)
         ELSE Done([put([bk EXCEPT !.sheets = Append(@, S.free[e.from])]) EXCEPT !.free = Drop(@, e.from)], e)
    [] e.op = "insert_free" ->
         IF e.from \notin DOMAIN S.free THEN Refuse(S, e)
         ELSE IF e.i > n THEN Out([S EXCEPT !.free = Drop(@, e.from)], IF Refused(e) THEN <<>> ELSE <<"not refused", e.op>>)
         ELSE Done([put([bk EXCEPT !.sheets = InsertAtPos(@, e.i + 1, S.free[e.from])]) EXCEPT !.free = Drop(@, e.from)], e)
    [] e.op = "detach" ->
         IF e.i >= n THEN Refuse(S, e) ELSE IF IsHole(bk.sheets[e.i + 1]) THEN Refuse(S, e)
         ELSE Done([put([bk EXCEPT !.sheets[e.i + 1] = Hole]) EXCEPT !.det = (e.to :> [i |-> e.i, sh |-> bk.sheets[e.i + 1]]) @@ @], e)
    [] e.op = "attach" ->
         IF e.from \notin DOMAIN S.det THEN Refuse(S, e)
         ELSE LET d == S.det[e.from]
                  S2 == [S EXCEPT !.det = Drop(@, e.from)]
              IN IF d.i >= n THEN Refuse(S2, e) ELSE IF ~IsHole(bk.sheets[d.i + 1]) THEN Refuse(S2, e)
                 ELSE Done([S2 EXCEPT !.books[b].sheets[d.i + 1] = d.sh], e)
    [] e.op = "sheet_idx" ->
         LET i == First(bk.sheets, LAMBDA sh : sh.name = e.x)
             exp == IF i = 0 THEN <<>> ELSE <<i - 1>>
         IN IF HasHole(bk) THEN Out(S, IF Refused(e) \/ e.out = exp THEN <<>> ELSE <<"answer", e.op, exp, e.out>>)
            ELSE Ans(S, e, exp)
    [] e.op = "q_names" ->
         LET l == [i \in 1..n |-> bk.sheets[i].name]
         IN IF HasHole(bk) THEN Refuse(S, e) ELSE Ans(S, e, [n |-> n, idx |-> l, it |-> l])
    [] e.op = "def_style" -> Done(put([bk EXCEPT !.def = (e.k :> e.x) @@ @]), e)
    [] e.op = "q_book" ->
         IF HasHole(bk) THEN Refuse(S, e)
         ELSE Out(S, IF e.res # "ok" THEN <<"failed", e.op, e.res>>
                     ELSE IF Pairs(e.out.def) # bk.def THEN <<"default styles", bk.def, e.out.def>>
                     ELSE IF Len(e.out.sheets) # n THEN <<"number of sheets", n, Len(e.out.sheets)>>
                     ELSE LET bad == {i \in 1..n : SheetDiff(bk.sheets[i], e.out.sheets[i]) # <<>>}
                          IN IF bad # {} THEN <<"sheet", Min(bad)>> \o SheetDiff(bk.sheets[Min(bad)], e.out.sheets[Min(bad)])
                             ELSE IF WithFacts(e) THEN RegDiff(bk.reg, e.out.facts) ELSE <<>>)

(* ---- packages ---- *)
\* first entry: the type marker, stored without compression; every part is stored once and listed once
PackageDiff(z) ==
  LET parts == {z.names[i] : i \in DOMAIN z.names}
      listed == {z.listed[i] : i \in DOMAIN z.listed}
      data == {n \in parts : n # "mimetype" /\ n \notin ToSet(z.folders)}
  IN CASE z.names = <<>> -> <<"empty package">>
       [] z.names[1] # "mimetype" \/ ~z.plain -> <<"package does not start with the stored type marker", z.names>>
       [] z.mime # "application/vnd.oasis.opendocument.spreadsheet" -> <<"type marker", z.mime>>
       [] Cardinality(parts) # Len(z.names) -> <<"part stored twice", z.names>>
       [] Cardinality(listed) # Len(z.listed) -> <<"part listed twice", z.listed>>
       [] ~(data \subseteq listed) -> <<"part not listed", data \ listed>>
       [] {n \in listed : n \notin parts /\ n \notin ToSet(z.dirs)} # {} -> <<"listed part is missing", listed \ parts>>
       [] OTHER -> <<>>
\* two workbooks that must be equal in everything; saving gives cells without style the default style of their type
\* (a name given on saving is not known to the specification: "*"; rows are stored in runs of any length; repetition 0 counts as 1)
SameLine(a, b) == [a EXCEPT !.st = <<>>, !.rep = Mx(@, 1)] = [b EXCEPT !.st = <<>>, !.rep = Mx(@, 1)] /\ (a.st = b.st \/ a.st = <<"*">> \/ b.st = <<"*">>)
\* cells without content that carry only the style their row or column gives them anyway say nothing
Redundant(sh, p) == LET x == sh.cells[p] IN NoCell(x) \/ (StyleOnly(x) /\ x.st = DefAt(sh, p[1], p[2]))
Telling(sh) == {p \in DOMAIN sh.cells : ~Redundant(sh, p)}
SameBooks(x, y, facts) ==
  LET n == Len(x.sheets)
      bare(bk, i) == [bk.sheets[i] EXCEPT !.rows = {}, !.cols = {}, !.rg = <<Bag(@)>>, !.cg = <<Bag(@)>>, !.cells = [p \in Telling(bk.sheets[i]) |-> OutStyle(@[p], bk.def)]]
      bad == {i \in 1..n : bare(x, i) # bare(y, i) \/ ~SamePointwise(x.sheets[i].rows, y.sheets[i].rows, SameLine) \/ ~SamePointwise(x.sheets[i].cols, y.sheets[i].cols, SameLine)}
  IN IF Len(y.sheets) # n THEN <<"number of sheets", n, Len(y.sheets)>>
     ELSE IF bad # {} THEN LET i == Min(bad) IN <<"sheet", i, {f \in DOMAIN x.sheets[i] : bare(x, i)[f] # bare(y, i)[f]}, x.sheets[i], y.sheets[i]>>
     ELSE IF x.def # y.def THEN <<"default styles", x.def, y.def>>
     ELSE IF ~facts THEN <<>>
     ELSE SetDiff("registries", Essence(x.reg), Essence(y.reg))

(* ---- files ---- *)
AllRows(bk) == UNION {bk.sheets[i].rows : i \in DOMAIN bk.sheets}
AllCols(bk) == UNION {bk.sheets[i].cols : i \in DOMAIN bk.sheets}
Shared(X) == {st \in {x.a.st : x \in X} : st # <<>> /\ Cardinality(LensOf(X, st)) > 1}
BookMustRefuse(bk) == Len(bk.sheets) = 0 \/ \E i \in DOMAIN bk.sheets : MustRefuse(bk.sheets[i])
SaveFileDiff(bk, doc, e) ==
  LET rs == Shared(AllRows(bk))
      cs == Shared(AllCols(bk))
      n == Len(bk.sheets)
  IN IF ~doc.ok THEN <<"file is not well-formed", doc.why>>
     ELSE IF doc.zip # <<>> /\ PackageDiff(doc.zip[1]) # <<>> THEN PackageDiff(doc.zip[1])
     ELSE IF Len(doc.tables) # n THEN <<"number of tables in file", n, Len(doc.tables)>>
     ELSE LET bad == {i \in 1..n : SaveDiff(bk.sheets[i], doc.tables[i], doc, bk.def, rs, cs) # <<>>}
          IN IF bad # {} THEN <<"table", Min(bad)>> \o SaveDiff(bk.sheets[Min(bad)], doc.tables[Min(bad)], doc, bk.def, rs, cs)
             ELSE IF ~WithFacts(e) THEN <<>>
             ELSE LET d == FileRegDiff(bk, doc) IN IF d # <<>> THEN d ELSE SavedRegDiff(bk, e.out.facts)
SavedBook(bk0, e) ==
  LET rs == Shared(AllRows(bk0))
      cs == Shared(AllCols(bk0))
      bk == IF WithFacts(e) THEN AfterSaveReg(bk0, e.out.facts, e.doc) ELSE bk0
  IN [bk EXCEPT !.sheets = [i \in DOMAIN @ |-> AfterSave(@[i], rs, cs)]]
\* of two contradicting options the last one counts
LastOf(o, on, off) == LET P == {i \in DOMAIN o : o[i] \in {on, off}} IN P # {} /\ o[Max(P)] = on
ReadMode(e) == LET o == Get(e, "opts", <<>>) IN [rep |-> LastOf(o, "repeat", "clone"), noempty |-> LastOf(o, "noempty", "empty"), content |-> LastOf(o, "content", "styles")]
Plain(doc, mode) == IF mode.content THEN [doc EXCEPT !.rst = <<>>, !.cst = <<>>] ELSE doc
ReadFileDiff(doc0, e) ==
  LET mode == ReadMode(e)
      doc == Plain(doc0, mode)
      n == Len(doc.tables)
      diff(i) == ReadDiff(doc.tables[i], doc, e.out.sheets[i], mode)
  IN IF Len(e.out.sheets) # n THEN <<"number of sheets read", n, Len(e.out.sheets)>>
     ELSE LET bad == {i \in 1..n : diff(i) # <<>>}
          IN IF bad # {} THEN <<"sheet", Min(bad)>> \o diff(Min(bad))
             ELSE IF ~WithFacts(e) \/ mode.content THEN <<>>
             ELSE LET d == ReadRegDiff(doc0, e.out.facts, e.out.base) IN IF d # <<>> THEN d ELSE ReadCfgDiff(doc0, e)

FileOps == {"save", "load", "put_file"}
\* doc(f): the meaning of the file stored under f
FileStep(S, e, doc(_), idx) ==
  CASE e.op = "put_file" -> Done([S EXCEPT !.files = (e.file :> idx) @@ @], e)
    [] e.op = "save" ->
         IF B(e) \notin DOMAIN S.books THEN Refuse(S, e)
         ELSE LET bk == S.books[B(e)]
              IN IF HasHole(bk) THEN Refuse(S, e)
                 ELSE IF \E i \in DOMAIN bk.sheets : Blurred(bk.sheets[i])
                 THEN Out([S EXCEPT !.dead = TRUE], IF e.res \in {"ok", "err"} THEN <<>> ELSE <<"save", e.res>>)
                 ELSE IF BookMustRefuse(bk)
                 THEN Out([S EXCEPT !.dead = TRUE], IF e.res = "err" THEN <<>> ELSE <<"save not refused", e.res>>)
                 ELSE IF e.res # "ok" THEN Out(S, <<"save failed", e.res, Get(e, "msg", "")>>)
                 ELSE LET bad == SaveFileDiff(bk, e.doc, e)
                      IN IF bad # <<>> THEN Out(S, bad) ELSE Out([WithBook(S, B(e), SavedBook(bk, e)) EXCEPT !.files = (e.file :> idx) @@ @], <<>>)
    [] e.op = "load" ->
         IF e.file \notin DOMAIN S.files THEN Refuse(S, e)
         ELSE LET d == doc(S.files[e.file])
                  mode == ReadMode(e)
              IN IF e.res # "ok" THEN Out(S, <<"load failed", e.res, Get(e, "msg", "")>>)
                 ELSE LET bad == ReadFileDiff(d, e)
                      IN IF bad # <<>> THEN Out(S, bad)
                         ELSE Out(WithBook(S, B(e), [Book0 EXCEPT !.sheets = [i \in DOMAIN d.tables |-> ReadSheet(d.tables[i], Plain(d, mode), e.out.sheets[i], mode)],
                                                                  !.def = Pairs(e.out.def), !.reg = LoadedReg(d, e), !.items = d.items, !.own = WithFacts(e) /\ d.items # <<>>]), <<>>)

Step(S, e, doc(_), idx) ==
  CASE e.op = "reset" -> Out(St0, <<>>)
    [] e.res = "hang" -> Out(S, <<"does not terminate", e.op>>)
    [] S.dead -> Out(S, <<>>)
    [] e.op \in SheetOps -> OnSheet(S, e)
    [] e.op \in ListOps -> ListStep(S, e)
    [] e.op \in FileOps -> FileStep(S, e, doc, idx)
    [] e.op \in RegOps -> LET r == RegStep(IF B(e) \in DOMAIN S.books THEN S.books[B(e)].reg ELSE {}, e)
                          IN Out(IF B(e) \in DOMAIN S.books THEN [S EXCEPT !.books[B(e)].reg = r.reg] ELSE S, r.bad)
    [] e.op = "same" -> Out(S, IF B(e) \in DOMAIN S.books /\ e.b2 \in DOMAIN S.books THEN SameBooks(S.books[B(e)], S.books[e.b2], WithFacts(e)) ELSE <<"no book">>)
    [] e.op \in RefOps -> Out(S, RefCheck(e))
    [] OTHER -> Out(S, FreeCheck(e))
=============================================================================
