------------------------------- MODULE ConvGen -------------------------------
(***************************************************************************)
(* Every conversion of a universe of native values, in every form: TLC     *)
(* checks the laws of Convert on each (a value answers accesses of its own *)
(* type only, clamping stays in range and is the identity within it, what  *)
(* went in comes out) and prints it for execution.                         *)
(***************************************************************************)
EXTENDS Convert, Json, IOUtils
U == JsonDeserialize(IOEnv.GEN).conv
VARIABLE n
Init == n \in DOMAIN U
Next == FALSE /\ UNCHANGED n
Spec == Init /\ [][Next]_n
Emit == PrintT(<<"H", <<n>>>>)
W == LET w == Into(U[n].t, U[n].x) IN IF w.k = "num" /\ U[n].ex # <<>> THEN [w EXCEPT !.v = U[n].ex] ELSE w
Families == {DOMAIN IntTypes \cup {"f64", "decimal"}, {"bool"}, {"str", "string"}, {"dt", "date"}, {"dur"}}
\* all accesses of one family answer, or none; at most one family does
Exclusive == LET on == {F \in Families : \E g \in F : Answer(W, g) # <<>>} IN
  /\ Cardinality(on) <= 1
  /\ \A F \in on : \A g \in F : Answer(W, g) # <<>>
  /\ (on = {}) = (W.k \in {"empty", "xml"})
InRange == \A t \in DOMAIN IntTypes : Numeric(W) =>
  LET r == ToIntType(t, W.v[1]) IN IF Negative(r) THEN ~MagLess(IntTypes[t][1], Abs(r)) ELSE ~MagLess(IntTypes[t][2], r)
RoundTrip == /\ (U[n].t \in DOMAIN IntTypes /\ U[n].x # <<>> /\ U[n].ex = U[n].x => Answer(W, U[n].t) = U[n].x)
             /\ (U[n].t \in {"bool", "str", "string", "dt", "date", "dur"} /\ U[n].x # <<>> => Answer(W, U[n].t) = U[n].x)
\* wider types hold what narrower ones hold
Nested == \A p \in {<<"i8", "i16">>, <<"i16", "i32">>, <<"i32", "i64">>, <<"u8", "u16">>, <<"u16", "u32">>, <<"u32", "u64">>, <<"u8", "i16">>, <<"u32", "i64">>} :
  Numeric(W) => ToIntType(p[1], ToIntType(p[2], W.v[1])) = ToIntType(p[1], W.v[1])
=============================================================================
