------------------------------ MODULE OdsTrace -------------------------------
(***************************************************************************)
(* Trace validation: the events recorded from the library are replayed     *)
(* against the specification, one step per event.                          *)
(***************************************************************************)
EXTENDS Book, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, bad
vars == <<i, S, bad>>
DocOf(k) == T[k].doc
Init == i = 1 /\ S = St0 /\ bad = <<>>
Next == /\ i <= Len(T) /\ bad = <<>>
        /\ LET r == Step(S, T[i], DocOf, i)
           IN /\ S' = r.s
              /\ bad' = r.bad
              /\ i' = i + 1
              /\ (r.bad # <<>> => PrintT(<<"BAD-EVENT", i, r.bad>>))
Spec == Init /\ [][Next]_vars
Conform == bad = <<>>
Finished == i <= Len(T) \/ PrintT(<<"DONE", Len(T)>>)
=============================================================================
