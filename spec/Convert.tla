------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversions into cell values and typed access to them.                  *)
(*                                                                         *)
(* A value is [k, v]: its type and its content.  Numbers are their exact   *)
(* decimal expansions ("-12.5"; "nan", "inf", "-inf"), because TLC has     *)
(* neither real numbers nor integers beyond 32 bits: truncation, clamping  *)
(* and comparison are defined on digits.                                   *)
(***************************************************************************)
EXTENDS Lexical

(* ---- numbers as texts ---- *)
Negative(x) == StartsWith(x, "-")
Abs(x) == IF Negative(x) THEN SubSeq(x, 2, Len(x)) ELSE x
WholePart(x) == LET i == SkipDigits(x, 1) IN SubSeq(x, 1, i - 1)      \* of a magnitude: the digits before the point
RECURSIVE LessDigits(_, _)
LessDigits(a, b) == a # "" /\ (IF Chr(a, 1) = Chr(b, 1) THEN LessDigits(From(a, 2), From(b, 2)) ELSE DigVal(Chr(a, 1)) < DigVal(Chr(b, 1)))
MagLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessDigits(a, b))
IntTypes == [i64 |-> <<"9223372036854775808", "9223372036854775807">>, u64 |-> <<"0", "18446744073709551615">>,
             i32 |-> <<"2147483648", "2147483647">>, u32 |-> <<"0", "4294967295">>,
             i16 |-> <<"32768", "32767">>, u16 |-> <<"0", "65535">>, i8 |-> <<"128", "127">>, u8 |-> <<"0", "255">>]
\* the whole number next to x on the side of zero, clamped to the type; not a number is zero
ToIntType(t, x) ==
  LET lo == IntTypes[t][1]
      hi == IntTypes[t][2]
      m == StripZeros(WholePart(Abs(x)))
  IN IF x = "nan" THEN "0"
     ELSE IF x = "inf" THEN hi
     ELSE IF x = "-inf" THEN (IF lo = "0" THEN "0" ELSE "-" \o lo)
     ELSE IF Negative(x) THEN (LET c == IF MagLess(lo, m) THEN lo ELSE m IN IF c = "0" THEN "0" ELSE "-" \o c)
     ELSE IF MagLess(hi, m) THEN hi ELSE m
\* a whole number as a double: exact up to 2^53, otherwise at most half the distance of two neighbours away
Powers == <<"9007199254740992", "18014398509481984", "36028797018963968", "72057594037927936", "144115188075855872", "288230376151711744",
            "576460752303423488", "1152921504606846976", "2305843009213693952", "4611686018427387904", "9223372036854775808", "18446744073709551616">>
Gap == [i \in DOMAIN Powers |-> IF i = 1 THEN 0 ELSE 2 ^ (i - 1)]     \* distance of neighbours up to Powers[i]
RECURSIVE PadLeft(_, _)
PadLeft(s, n) == IF Len(s) >= n THEN s ELSE PadLeft("0" \o s, n)
Chunk(s, i) == ToInt(SubSeq(PadLeft(s, 24), 8 * i - 7, 8 * i))
Apart(a, b) ==       \* |a - b|, 10^9 when it is large
  LET h == Chunk(a, 1) - Chunk(b, 1)
      m == Chunk(a, 2) - Chunk(b, 2)
      l == Chunk(a, 3) - Chunk(b, 3)
      d == IF h = 0 /\ m \in {-1, 0, 1} THEN m * 100000000 + l
           ELSE IF h = 1 /\ m = -99999999 THEN 100000000 + l
           ELSE IF h = -1 /\ m = 99999999 THEN l - 100000000
           ELSE 1000000000
  IN IF d < 0 THEN -d ELSE d
GapOf(m) == LET i == First(Powers, LAMBDA p : ~MagLess(p, m)) IN Gap[i]
AsDouble(x, f) == f = x \/ (Negative(x) = Negative(f) /\ AllDigits(Abs(f)) /\ 2 * Apart(Abs(x), Abs(f)) <= GapOf(Abs(x)))

(* ---- the value a conversion makes: [k, v] ---- *)
NumTypes == {"f64", "f32", "decimal"} \cup DOMAIN IntTypes
Midnight == <<"00", "00", "00", "000000000">>
Day0 == <<"1899", "12", "30">>
Into(t, x) ==
  IF t \in {"unit", "default"} \/ (x = <<>> /\ t \notin {"tag", "tags"}) THEN [k |-> "empty", v |-> <<>>]
  ELSE CASE t \in NumTypes -> [k |-> "num", v |-> x]
         [] t = "pct" -> [k |-> "pct", v |-> x]
         [] t = "cur" -> [k |-> "cur", v |-> x]
         [] t = "bool" -> [k |-> "bool", v |-> x]
         [] t \in {"str", "string", "stringref"} -> [k |-> "text", v |-> x]
         [] t \in {"tag", "tags"} -> [k |-> "xml", v |-> <<>>]
         [] t = "dt" -> [k |-> "dt", v |-> x]
         [] t = "date" -> [k |-> "dt", v |-> x \o Midnight]
         [] t = "time" -> [k |-> "dt", v |-> Day0 \o x]
         [] t = "dur" -> [k |-> "dur", v |-> x]
\* the text of markup: its text in order, one line per paragraph
TextOfToks(l) == FoldLeft(LAMBDA b, x : IF x[1] = "t" THEN b \o x[2] ELSE b, "", l)
RECURSIVE TextOfTags(_)
TextOfTags(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN TextOfToks(l[1]) ELSE TextOfToks(l[1]) \o "\n" \o TextOfTags(Tail(l))

(* ---- what each typed access answers: <<>> when the value is of another type ---- *)
Numeric(w) == w.k \in {"num", "pct", "cur"}
Answer(w, g) ==
  CASE g \in DOMAIN IntTypes -> IF Numeric(w) THEN <<ToIntType(g, w.v[1])>> ELSE <<>>
    [] g \in {"f64", "decimal"} -> IF Numeric(w) THEN <<w.v[1]>> ELSE <<>>
    [] g = "bool" -> IF w.k = "bool" THEN w.v ELSE <<>>
    [] g \in {"str", "string"} -> IF w.k = "text" THEN w.v ELSE <<>>
    [] g = "dt" -> IF w.k = "dt" THEN w.v ELSE <<>>
    [] g = "date" -> IF w.k = "dt" THEN SubSeq(w.v, 1, 3) ELSE <<>>
    [] g = "dur" -> IF w.k = "dur" THEN w.v ELSE <<>>
ZeroOf(g) ==
  CASE g \in DOMAIN IntTypes \cup {"f64", "decimal"} -> <<"0">>
    [] g \in {"str", "string"} -> <<"">>
    [] g = "dt" -> <<"1970", "01", "01">> \o Midnight
    [] g = "date" -> <<"1970", "01", "01">>
    [] g = "dur" -> <<"+", "0", "00", "00", "000000000">>
Or(a, d) == IF a = <<>> THEN d ELSE a
Getters == DOMAIN IntTypes \cup {"f64", "decimal", "bool", "str", "string", "dt", "date", "dur"}
\* the three forms of an access: with the caller's alternative, with the default, optional
Accesses(w, g, d, toks) ==
  LET a == Answer(w, g) IN
  CASE g = "bool" -> <<Or(a, <<"true">>), Or(a, <<"false">>), <<>>>>
    [] g = "string" -> <<IF w.k = "xml" THEN <<TextOfTags(toks)>> ELSE Or(a, <<d.str>>), Or(a, ZeroOf(g)), a>>
    [] g = "date" -> <<Or(a, SubSeq(d.dt, 1, 3)), Or(a, ZeroOf(g)), a>>
    [] g \in {"dt", "dur"} -> <<Or(a, d[g]), Or(a, ZeroOf(g)), a>>
    [] g \in DOMAIN IntTypes -> <<Or(a, <<d.int>>), Or(a, ZeroOf(g)), a>>
    [] OTHER -> <<Or(a, <<d[g]>>), Or(a, ZeroOf(g)), a>>
OneGot(w, e, g, got) ==
  CASE g = "type" -> IF got[1] = <<w.k>> THEN <<>> ELSE <<"type", w.k, got[1]>>
    [] g = "currency" -> LET c == IF w.k = "cur" THEN w.v[2] ELSE "" IN IF got[1] = <<c>> THEN <<>> ELSE <<"currency", c, got[1]>>
    [] g = "decimal" /\ Numeric(w) ->   \* the shortest decimal of the double, where the event has it
         IF e.sh = <<>> THEN <<>> ELSE IF got = <<e.sh, e.sh, e.sh>> THEN <<>> ELSE <<"decimal", e.sh, got>>
    [] OTHER -> IF got = Accesses(w, g, e.d, e.toks) THEN <<>> ELSE <<"access", g, "expected", Accesses(w, g, e.d, e.toks), "got", got>>
ConvCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res, e.t, e.x>>
  ELSE LET w0 == Into(e.t, e.x)
           got == [g \in {e.out.g[i][1] : i \in DOMAIN e.out.g} |-> LET i == CHOOSE i \in DOMAIN e.out.g : e.out.g[i][1] = g IN e.out.g[i][2]]
           f == got["f64"][3]                  \* the double that was stored
           exact == w0.k = "num" /\ e.ex # <<>>
           w == IF w0.k # "num" THEN w0 ELSE IF e.ex # <<>> THEN [w0 EXCEPT !.v = e.ex] ELSE [w0 EXCEPT !.v = f]
           wrong == {g \in DOMAIN got : OneGot(w, e, g, got[g]) # <<>>}
       IN IF w0.k = "num" /\ ~exact /\ (f = <<>> \/ ~AsDouble(e.x[1], f[1])) THEN <<"number", e.t, e.x, f>>
          ELSE IF wrong # {} THEN LET g == CHOOSE g \in wrong : TRUE IN <<e.t, e.form, e.x, OneGot(w, e, g, got[g])>>
          ELSE IF DOMAIN got # Getters \cup {"type", "currency"} THEN <<"accesses", DOMAIN got>>
          ELSE IF e.out.stored # "true" THEN <<"stored value differs", e.t, e.x>>
          ELSE <<>>
=============================================================================
