------------------------------- MODULE Escape --------------------------------
(***************************************************************************)
(* Text in XML: every character has several spellings (itself, named       *)
(* entity, decimal and hexadecimal reference, CDATA section).  Decode is   *)
(* the meaning the standard gives to a spelling.  TLC enumerates all texts *)
(* over an alphabet of spelled characters up to a length, shows that the   *)
(* spelling means the text and prints them; the texts are put in every     *)
(* place of the library's document model (saving) and the spellings in     *)
(* files (reading).  GEN names a JSON file [items, codes, depth, attr].    *)
(***************************************************************************)
EXTENDS Util, Sequences, Integers, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN)
VARIABLE w
Cat(l) == FoldLeft(LAMBDA a, b : a \o b, "", l)
Text(l) == Cat([i \in DOMAIN l |-> P.items[l[i]].c])
Raw(l) == Cat([i \in DOMAIN l |-> P.items[l[i]].raw])
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
RECURSIVE Find(_, _, _)
Find(s, i, t) == IF i > Len(s) THEN 0 ELSE IF At(s, i, t) THEN i ELSE Find(s, i + 1, t)
Ref(name) == LET k == {i \in DOMAIN P.codes : P.codes[i][1] = name} IN IF k = {} THEN <<>> ELSE <<P.codes[CHOOSE i \in k : TRUE][2]>>
\* <<text>>, or <<>> when the spelling is not well-formed
RECURSIVE Dec(_, _, _)
Dec(s, i, acc) ==
  IF i > Len(s) THEN <<acc>>
  ELSE IF At(s, i, "<![CDATA[") THEN
         LET j == Find(s, i + 9, "]]>") IN IF P.attr \/ j = 0 THEN <<>> ELSE Dec(s, j + 3, acc \o SubSeq(s, i + 9, j - 1))
  ELSE IF At(s, i, "<") THEN <<>>
  ELSE IF At(s, i, "&") THEN
         LET j == Find(s, i, ";") IN IF j = 0 THEN <<>> ELSE LET r == Ref(SubSeq(s, i + 1, j - 1)) IN IF r = <<>> THEN <<>> ELSE Dec(s, j + 1, acc \o r[1])
  ELSE IF P.attr /\ At(s, i, "\"") THEN <<>>
  ELSE IF ~P.attr /\ At(s, i, "]]>") THEN <<>>
  ELSE Dec(s, i + 1, acc \o SubSeq(s, i, i))
Init == w = <<>>
Next == \E k \in DOMAIN P.items : Len(w) < P.depth /\ w' = Append(w, k)
Spec == Init /\ [][Next]_w
Means == Dec(Raw(w), 1, "") = <<Text(w)>>
Emit == w = <<>> \/ PrintT(<<"H", w>>)
=============================================================================
