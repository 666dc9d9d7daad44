------------------------------- MODULE Lexical -------------------------------
(***************************************************************************)
(* Lexical forms of the ODF value types: what the attribute text of a cell *)
(* denotes.  Dates and durations are taken apart here, character by        *)
(* character; floating point numbers arrive as the bit pattern an          *)
(* independent parser (Python) assigned to the attribute text.             *)
(***************************************************************************)
EXTENDS Util

IsDigit(c) == c \in Digits
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Chr(s, i))
DigVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
               [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE ToInt(_)
ToInt(s) == IF s = "" THEN 0 ELSE 10 * ToInt(SubSeq(s, 1, Len(s) - 1)) + DigVal(Chr(s, Len(s)))
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(Chr(s, i)) THEN SkipDigits(s, i + 1) ELSE i
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE PadRight(_, _)
PadRight(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE PadRight(s \o "0", n)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
From(s, i) == SubSeq(s, i, Len(s))

Frac9 == PadRight("", 9)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* YYYY-MM-DD[THH:MM:SS[.f*]] -> <<y,mo,d,h,mi,s,ns>> as strings, <<>> if it is none
TimePart(t) ==
  IF Len(t) >= 8 /\ AllDigits(SubSeq(t, 1, 2)) /\ Chr(t, 3) = ":" /\ AllDigits(SubSeq(t, 4, 5)) /\ Chr(t, 6) = ":"
     /\ AllDigits(SubSeq(t, 7, 8)) /\ ToInt(SubSeq(t, 1, 2)) < 24 /\ ToInt(SubSeq(t, 4, 5)) < 60 /\ ToInt(SubSeq(t, 7, 8)) < 60
  THEN IF Len(t) = 8 THEN <<SubSeq(t, 1, 2), SubSeq(t, 4, 5), SubSeq(t, 7, 8), Frac9>>
       ELSE IF Chr(t, 9) = "." /\ AllDigits(From(t, 10))
            THEN <<SubSeq(t, 1, 2), SubSeq(t, 4, 5), SubSeq(t, 7, 8), PadRight(From(t, 10), 9)>>
            ELSE <<>>
  ELSE <<>>
DatePart(d) ==
  IF Len(d) = 10 /\ AllDigits(SubSeq(d, 1, 4)) /\ Chr(d, 5) = "-" /\ AllDigits(SubSeq(d, 6, 7)) /\ Chr(d, 8) = "-" /\ AllDigits(From(d, 9))
  THEN LET y == ToInt(SubSeq(d, 1, 4))
           m == ToInt(SubSeq(d, 6, 7))
           k == ToInt(From(d, 9))
       IN IF m \in 1..12 /\ k >= 1 /\ k <= MonthDays(y, m) THEN <<ToString(y), SubSeq(d, 6, 7), From(d, 9)>> ELSE <<>>
  ELSE <<>>
NextDay(d) ==
  LET y == ToInt(d[1]) m == ToInt(d[2]) k == ToInt(d[3])
  IN IF k < MonthDays(y, m) THEN <<d[1], d[2], Pad2(k + 1)>>
     ELSE IF m < 12 THEN <<d[1], Pad2(m + 1), "01">> ELSE <<ToString(y + 1), "01", "01">>
\* 24:00:00 is the first instant of the following day; a final Z (UTC) changes no field
DateTimeL(s) ==
  IF Len(s) = 10 THEN LET d == DatePart(s) IN IF d = <<>> THEN <<>> ELSE d \o <<"00", "00", "00", Frac9>>
  ELSE IF Len(s) > 11 /\ Chr(s, 11) = "T"
  THEN LET d == DatePart(SubSeq(s, 1, 10))
           h24 == Len(s) >= 19 /\ SubSeq(s, 12, 19) = "24:00:00"
           t == TimePart(IF h24 THEN "00" \o From(s, 14) ELSE From(s, 12))
       IN IF d = <<>> \/ t = <<>> \/ (h24 /\ t[4] # Frac9) THEN <<>> ELSE (IF h24 THEN NextDay(d) ELSE d) \o t
  ELSE <<>>
DateTime(s) == DateTimeL(IF Len(s) > 10 /\ Chr(s, Len(s)) = "Z" THEN SubSeq(s, 1, Len(s) - 1) ELSE s)

\* [-]P[nD][T[nH][nM][n[.f]S]] -> <<sign, hours, mm, ss, ns>>, <<>> if it is none
RECURSIVE DurFields(_, _, _, _)
DurFields(s, i, inT, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Chr(s, i) = "T" THEN IF inT THEN [acc EXCEPT !.ok = FALSE] ELSE DurFields(s, i + 1, TRUE, acc)
  ELSE LET j == SkipDigits(s, i)
           num == SubSeq(s, i, j - 1)
       IN IF j = i \/ j > Len(s) THEN [acc EXCEPT !.ok = FALSE]
          ELSE LET u == Chr(s, j) IN
               CASE u = "D" /\ ~inT -> DurFields(s, j + 1, inT, [acc EXCEPT !.d = num, !.n = @ + 1])
                 [] u = "H" /\ inT -> DurFields(s, j + 1, inT, [acc EXCEPT !.h = num, !.n = @ + 1])
                 [] u = "M" /\ inT -> DurFields(s, j + 1, inT, [acc EXCEPT !.m = num, !.n = @ + 1])
                 [] u = "S" /\ inT -> DurFields(s, j + 1, inT, [acc EXCEPT !.s = num, !.n = @ + 1])
                 [] u = "." /\ inT ->
                      LET k == SkipDigits(s, j + 1)
                      IN IF k = Len(s) /\ k > j + 1 /\ Chr(s, k) = "S"
                         THEN [acc EXCEPT !.s = num, !.f = SubSeq(s, j + 1, k - 1), !.n = @ + 1]
                         ELSE [acc EXCEPT !.ok = FALSE]
                 [] OTHER -> [acc EXCEPT !.ok = FALSE]
Duration(str) ==
  LET neg == Len(str) > 0 /\ Chr(str, 1) = "-"
      s == IF neg THEN From(str, 2) ELSE str
      z == [ok |-> TRUE, d |-> "0", h |-> "0", m |-> "0", s |-> "0", f |-> "", n |-> 0]
      a == DurFields(s, 2, FALSE, z)
  IN IF Len(s) < 3 \/ Chr(s, 1) # "P" \/ ~a.ok \/ a.n = 0 THEN <<>>
     ELSE LET ns == PadRight(a.f, 9)
              small == Len(a.m) <= 2 /\ Len(a.s) <= 2 /\ ToInt(a.m) < 60 /\ ToInt(a.s) < 60 /\ StripZeros(a.d) = "0"
              sec == ToInt(a.s)
              mi == ToInt(a.m) + sec \div 60
              hh == ToInt(a.h) + mi \div 60 + 24 * ToInt(a.d)
              r == IF small THEN <<StripZeros(a.h), Pad2(ToInt(a.m)), Pad2(ToInt(a.s)), ns>>
                   ELSE <<ToString(hh), Pad2(mi % 60), Pad2(sec % 60), ns>>
          IN <<IF neg /\ r # <<"0", "00", "00", Frac9>> THEN "-" ELSE "+">> \o r

(* ---- base64: the text of a sequence of bytes ---- *)
B64Abc == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Chr(n) == Chr(B64Abc, n + 1)
RECURSIVE B64(_)
B64(b) ==
  IF b = <<>> THEN ""
  ELSE IF Len(b) = 1 THEN B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16) \o "=="
  ELSE IF Len(b) = 2 THEN B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16 + b[2] \div 16) \o B64Chr((b[2] % 16) * 4) \o "="
  ELSE B64Chr(b[1] \div 4) \o B64Chr((b[1] % 4) * 16 + b[2] \div 16) \o B64Chr((b[2] % 16) * 4 + b[3] \div 64) \o B64Chr(b[3] % 64) \o B64(SubSeq(b, 4, Len(b)))

\* xsd:boolean as ODF restricts it
Bool(s) == IF s \in {"true", "false"} THEN <<s>> ELSE <<>>

(* ---- what a cell token denotes: [ok, val] ---- *)
NoVal == [ok |-> FALSE, val |-> [k |-> "empty", v |-> <<>>]]
Kv(k, v) == IF v = <<>> THEN NoVal ELSE [ok |-> TRUE, val |-> [k |-> k, v |-> v]]
Num(t) == IF t.num = "" THEN <<>> ELSE <<t.num>>
TokVal(t) ==
  CASE t.vt = "" -> [ok |-> t.val = "" /\ t.num = "" /\ t.cur = <<>> /\ t.sv = <<>>, val |-> [k |-> "empty", v |-> <<>>]]
    [] t.vt = "float" -> Kv("num", Num(t))
    [] t.vt = "percentage" -> Kv("pct", Num(t))
    [] t.vt = "currency" -> Kv("cur", IF t.num = "" THEN <<>> ELSE <<t.num, IF t.cur = <<>> THEN "" ELSE t.cur[1]>>)
    [] t.vt = "boolean" -> Kv("bool", Bool(t.val))
    [] t.vt = "date" -> Kv("dt", DateTime(t.val))
    [] t.vt = "time" -> Kv("dur", Duration(t.val))
    [] t.vt = "string" -> IF t.sv # <<>> THEN [ok |-> TRUE, val |-> [k |-> "text", v |-> t.sv]] ELSE [ok |-> TRUE, val |-> t.txt]
    [] OTHER -> NoVal
=============================================================================
