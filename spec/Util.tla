-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all modules of the specification.  Options are    *)
(* sequences of length 0/1, cell values are records [k, v] with v a sequence *)
(* of strings, so every comparison TLC makes is between values of one type.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ Bag(s) = Bag(t)
Lex(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])      \* row-major order
LexEq(p, q) == p = q \/ Lex(p, q)
Colex(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])    \* column-major order
Chr(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
First(seq, P(_)) == LET I == {i \in DOMAIN seq : P(seq[i])} IN IF I = {} THEN 0 ELSE Min(I)
Pairs(l) == [k \in {l[i][1] : i \in DOMAIN l} |-> LET i == CHOOSE j \in DOMAIN l : l[j][1] = k IN l[i][2]]
Sorted(S, lt(_, _)) == SetToSortSeq(S, lt)
=============================================================================
