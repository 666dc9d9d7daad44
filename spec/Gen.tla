--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of the specification over a finite alphabet of operations:   *)
(* TLC enumerates them breadth first, checks the design invariants in      *)
(* every state and prints every history; the histories are replayed into   *)
(* the library.  GEN names a JSON file [pre, ops, depth].                  *)
(***************************************************************************)
EXTENDS Design, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN)
VARIABLES S, hist
vars == <<S, hist>>
\* transitions are predicted without looking at an outcome
Go(s, o) == Step(s, o @@ [res |-> "err", out |-> <<>>], LAMBDA k : <<>>, 0).s
Pre(s, o) == IF o.op = "new" THEN WithBook(s, B(o), Book0) ELSE Go(s, o)
Init == S = FoldLeft(Pre, St0, P.pre) /\ hist = <<>>
Next == \E k \in DOMAIN P.ops :
          /\ Len(hist) < P.depth
          /\ S' = Go(S, P.ops[k])
          /\ hist' = Append(hist, k)
Spec == Init /\ [][Next]_vars
View == S
Emit == hist = <<>> \/ PrintT(<<"H", hist>>)
Sheets == UNION {ToSet(S.books[b].sheets) : b \in DOMAIN S.books}
Inv == \A sh \in Sheets : WellFormed(sh) /\ WriterAgrees(sh) /\ NotVacuous(sh)
RegInv == \A b \in DOMAIN S.books : RegUnique(S.books[b]) /\ RegAgrees(S.books[b]) /\ RegNotVacuous(S.books[b])
LocalOp == [][\A k \in DOMAIN P.ops : hist' = Append(hist, k) /\ P.ops[k].op \in CellOps \cup AttrOps /\ Has(P.ops[k], "s") /\ P.ops[k].s < Len(S.books[0].sheets) =>
                 Local(P.ops[k], S.books[0].sheets[P.ops[k].s + 1], S'.books[0].sheets[P.ops[k].s + 1])]_vars
RegLocalOp == [][\A k \in DOMAIN P.ops : hist' = Append(hist, k) /\ P.ops[k].op \in {"reg_put", "reg_del", "reg_get", "reg_mod"} => RegLocal(P.ops[k], S.books[0].reg, S'.books[0].reg)]_vars
=============================================================================
