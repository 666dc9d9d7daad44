------------------------------- MODULE SetGen --------------------------------
(***************************************************************************)
(* Behaviours of one object under its typed setters: TLC explores every    *)
(* sequence of calls up to a length and checks that the transition system  *)
(* of Settings has the properties the library must have (a call is local   *)
(* to its attributes, repeating it changes nothing, every reachable object *)
(* is a function from attributes to texts), and prints the sequences for   *)
(* execution.  GEN names a JSON file [kinds: <<[k, calls]>>, depth].       *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils
P == JsonDeserialize(IOEnv.GEN)
VARIABLES q, w, m      \* number of the kind, numbers of the calls, the object
vars == <<q, w, m>>
K == P.kinds[q].k
C(i) == P.kinds[q].calls[i]
Init == q \in DOMAIN P.kinds /\ w = <<>> /\ m = {}
Next == \E i \in DOMAIN P.kinds[q].calls : Len(w) < P.depth /\ w' = Append(w, i) /\ m' = CallSet(K, m, C(i)) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
Emit == Len(w) < P.depth \/ PrintT(<<"H", <<q>> \o w>>)
Function == \A x, y \in m : x[1] = y[1] /\ x[2] = y[2] => x = y
Idempotent == w = <<>> \/ CallSet(K, m, C(w[Len(w)])) = m
AttrsOf(c) == LET r == RowsOf[K][c[1]] IN {<<r[1], r[4][i]>> : i \in DOMAIN r[4]}
Local == [][LET own == AttrsOf(C(w'[Len(w')])) IN {x \in m : <<x[1], x[2]>> \notin own} = {x \in m' : <<x[1], x[2]>> \notin own}]_vars
=============================================================================
