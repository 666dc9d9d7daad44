------------------------------ MODULE Settings -------------------------------
(***************************************************************************)
(* Typed setters, builders of number formats and ready-made formats.       *)
(*                                                                         *)
(* An object of a kind is a function from (part, attribute) to text.  A    *)
(* setter call is a transition: it gives the attributes of its row in the  *)
(* table (Setters) the text of its arguments and leaves all others as they *)
(* are.  Arguments are lists of words: a length is <<unit, number>>, an    *)
(* enumeration value <<variant>>, an alternative <<variant, value...>>, a  *)
(* colour three pairs of hexadecimal digits, a locale <<language, script,  *)
(* region>>, an absent option <<>>.                                        *)
(***************************************************************************)
EXTENDS Setters, Util, Sequences, Integers, FiniteSets, TLC

LengthUnits == [Cm |-> "cm", Mm |-> "mm", In |-> "in", Pt |-> "pt", Pc |-> "pc", Em |-> "em"]
AngleUnits == [Deg |-> "deg", Grad |-> "grad", Rad |-> "rad"]
RECURSIVE Txt(_, _)
Txt(t, a) ==
  CASE t = "Length" -> a[2] \o LengthUnits[a[1]]
    [] t = "Percent" -> a[1] \o "%"
    [] t = "Angle" -> a[2] \o AngleUnits[a[1]]
    [] t = "Rgb" -> "#" \o a[1] \o a[2] \o a[3]
    [] t \notin DOMAIN WordsOf /\ Len(a) = 1 -> a[1]
    [] Len(a) > 1 /\ a[1] \in {"Length", "Percent", "Angle"} -> Txt(a[1], Tail(a))
    [] Len(a) > 1 -> a[2]
    [] OTHER -> WordsOf[t][a[1]]
RECURSIVE Spaced(_)
Spaced(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o " " \o Spaced(Tail(l))
OptTxt(t, a) == IF a = <<>> THEN <<>> ELSE <<Txt(t, a)>>
IsRef(t) == t \in {"[S]", "[GraphicStyleRef]", "[ParagraphStyleRef]", "[TextStyleRef]"}
ListTxt(t, a) == Spaced([i \in DOMAIN a |-> IF t = "[PrintContent]" THEN WordsOf.PrintContent[a[i]] ELSE a[i]])
NoLocale == <<"und", "", "">>
\* what a call does: a sequence of <<attribute, <<text>>>> (set) and <<attribute, <<>>>> (clear)
LocaleDoes(at, l) ==
  LET lang == <<at[1], IF l = NoLocale THEN <<>> ELSE <<l[1]>>>>
      country == <<at[2], IF l = NoLocale \/ l[3] = "" THEN <<>> ELSE <<l[3]>>>>
      script == <<at[3], IF l = NoLocale \/ l[2] = "" THEN <<>> ELSE <<l[2]>>>>
  IN IF Len(at) = 2 THEN <<lang, country>> ELSE <<lang, country, script>>
CallDoes(pat, ty, at, a) ==
  CASE pat = "one" -> <<<<at[1], <<Txt(ty[1], a[1])>>>>>>
    [] pat = "border" -> <<<<at[1], <<Spaced(<<Txt("Length", a[1]), Txt("Border", a[2]), Txt("Rgb", a[3])>>)>>>>>>
    [] pat = "widths" -> <<<<at[1], <<Spaced([i \in 1..3 |-> Txt("Length", a[i])])>>>>>>
    [] pat = "shadow" -> <<<<at[1], <<Spaced(<<Txt("Rgb", a[4]), Txt("Length", a[1]), Txt("Length", a[2])>> \o OptTxt("Length", a[3]))>>>>>>
    [] pat = "pos" -> <<<<at[1], <<Spaced(<<Txt("TextPosition", a[1])>> \o OptTxt("Percent", a[2]))>>>>>>
    [] pat = "emph" -> <<<<at[1], <<Spaced(<<Txt("TextEmphasize", a[1]), Txt("TextEmphasizePosition", a[2])>>)>>>>>>
    [] pat = "rel" -> <<<<at[1], <<a[1][1] \o "*">>>>>>
    [] pat = "list" -> <<<<at[1], <<ListTxt(ty[1], a[1])>>>>>>
    [] pat = "italic" -> <<<<at[1], <<"italic">>>>>>
    [] pat = "bold" -> <<<<at[1], <<"bold">>>>>>
    [] pat = "clear" -> <<<<at[1], <<>>>>>>
    [] pat = "orclear" -> <<<<at[1], IF a[1][1] = "Default" THEN <<>> ELSE <<Txt(ty[1], a[1])>>>>>>
    [] pat = "locale" -> LocaleDoes(at, a[1])
    [] pat = "fontattr" -> <<<<at[1], <<Txt("FontSize", a[1])>>>>>> \o (IF a[2][1] = "true" THEN <<<<at[2], <<"bold">>>>>> ELSE <<>>)
                           \o (IF a[3][1] = "true" THEN <<<<at[3], <<"italic">>>>>> ELSE <<>>)
Apply1(m, part, d) == {x \in m : ~(x[1] = part /\ x[2] = d[1])} \cup (IF d[2] = <<>> THEN {} ELSE {<<part, d[1], d[2][1]>>})
CallSet(k, m, c) ==
  LET row == RowsOf[k][c[1]] IN FoldLeft(LAMBDA n, d : Apply1(n, row[1], d), m, CallDoes(row[2], row[3], row[4], c[2]))
AfterCalls(k, calls) == FoldLeft(LAMBDA m, c : CallSet(k, m, c), {}, calls)
\* getters: the texts of their attributes; a missing first attribute means the default
ValOf(m, p, a) == LET x == {y \in m : y[1] = p /\ y[2] = a} IN IF x = {} THEN "" ELSE (CHOOSE y \in x : TRUE)[3]
FlagGetters == {"use_optimal_row_height", "use_optimal_col_width"}
GetterSays(m, g) ==
  LET first == ValOf(m, g[2], g[3][1])
  IN IF g[1] \in FlagGetters THEN <<IF first = "" THEN "false" ELSE first>>
     ELSE IF first = "" THEN [i \in DOMAIN g[3] |-> ""] ELSE [i \in DOMAIN g[3] |-> ValOf(m, g[2], g[3][i])]
MapDiff(m, out) == LET o == {out[i] : i \in DOMAIN out} IN
  IF Cardinality(o) # Len(out) THEN <<"an attribute is there twice", out>>
  ELSE IF o # m THEN <<"attributes", "expected and missing", m \ o, "there and not expected", o \ m>>
  ELSE <<>>
SetCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res, e.calls>>
  ELSE LET m == AfterCalls(e.k, e.calls)
           d == MapDiff(m, e.out.m)
           gs == GettersOf[e.k]
           wrong == {i \in DOMAIN gs : GetterSays(m, gs[i]) # e.out.g[i]}
       IN IF d # <<>> THEN <<"setter", e.k, e.calls, d>>
          ELSE IF wrong # {} THEN LET i == CHOOSE i \in wrong : TRUE IN <<"getter", e.k, gs[i][1], "expected", GetterSays(m, gs[i]), "got", e.out.g[i], e.calls>>
          ELSE <<>>

(* ---- builders of text elements: the element and its content in the order of the calls ---- *)
InnerTag(t) == <<<<"<", TextTags[t]>>, <<"t", "in">>, <<">", "">>>>
BuiltTag(t, ops) == <<<<"<", TextTags[t]>>>> \o FlattenSeq([i \in DOMAIN ops |-> IF ops[i][1] = "t" THEN <<ops[i]>> ELSE InnerTag(ops[i][2])]) \o <<<<">", "">>>>
\* neighbouring texts are one text
RECURSIVE JoinT(_)
JoinT(l) == IF Len(l) < 2 THEN l ELSE IF l[1][1] = "t" /\ l[2][1] = "t" THEN JoinT(<<<<"t", l[1][2] \o l[2][2]>>>> \o Tail(Tail(l))) ELSE <<l[1]>> \o JoinT(Tail(l))
TagCheck(e) == IF e.res # "ok" THEN <<"failed", e.op, e.res>> ELSE IF JoinT(e.out) # JoinT(BuiltTag(e.t, e.ops)) THEN <<"element", BuiltTag(e.t, e.ops), e.out>> ELSE <<>>

(* ---- format parts ---- *)
\* a part under construction: attributes, content (<<>> or <<text>>), position
Part0(b) == [el |-> PartsOf[b][1], m |-> {}, c |-> IF b = "text" THEN <<"">> ELSE <<>>, p |-> <<>>]
SetA(pt, n, v) == [pt EXCEPT !.m = {x \in pt.m : x[1] # n} \cup {<<n, v>>}]
Option(b, pt, name, a) ==
  LET o == PartsOf[b][2][name]
      pat == o[1]
      at == o[3]
  IN CASE pat = "one" -> SetA(pt, at[1], Txt(o[2][1], a[1]))
       [] pat = "both" -> SetA(SetA(pt, at[1], Txt(o[2][1], a[1])), at[2], Txt(o[2][1], a[1]))
       [] pat = "const:true" -> SetA(pt, at[1], "true")
       [] pat = "const:long" -> SetA(pt, at[1], "long")
       [] pat = "const:short" -> SetA(pt, at[1], "short")
       [] pat = "content" -> [pt EXCEPT !.c = <<a[1][1]>>]
       [] pat = "embed" -> [pt EXCEPT !.c = <<a[1][1]>>, !.p = <<a[2][1]>>]
       [] pat = "part-locale" ->
            LET l == a[1]
                p1 == SetA(pt, at[1], l[1])
                p2 == IF l[3] = "" THEN p1 ELSE SetA(p1, at[2], l[3])
            IN IF l[2] = "" THEN p2 ELSE SetA(p2, at[3], l[2])
BuiltPart(b, opts) ==
  FoldLeft(LAMBDA pt, o : LET c == SubSeq(o[1], 1, 1) IN
             IF c = "-" THEN pt
             ELSE Option(b, pt, IF c = "+" THEN SubSeq(o[1], 2, Len(o[1])) ELSE o[1], o[2]),
           Part0(b), opts)
IfOpt(c, opt) == IF c[1] = "true" THEN <<opt>> ELSE <<>>
GroupOpt == <<"grouping", <<>>>>
\* the older calls: a part in one step
PushPart(f, a) ==
  CASE f = "push_boolean" -> BuiltPart("boolean", <<>>)
    [] f = "push_number" -> BuiltPart("number", <<<<"decimal_places", <<a[1]>>>>, <<"min_decimal_places", <<<<"0">>>>>>, <<"min_integer_digits", <<<<"1">>>>>>>> \o IfOpt(a[2], GroupOpt))
    [] f = "push_number_fix" -> BuiltPart("number", <<<<"fixed_decimal_places", <<a[1]>>>>, <<"min_integer_digits", <<<<"1">>>>>>>> \o IfOpt(a[2], GroupOpt))
    [] f = "push_fraction" -> BuiltPart("fraction", <<<<"denominator", <<a[1]>>>>, <<"min_denominator_digits", <<a[2]>>>>, <<"min_integer_digits", <<a[3]>>>>, <<"min_numerator_digits", <<a[4]>>>>>> \o IfOpt(a[5], GroupOpt))
    [] f = "push_scientific" -> BuiltPart("scientific", <<<<"decimal_places", <<a[1]>>>>>>)
    [] f = "push_text" -> BuiltPart("text", <<<<"text", <<a[1]>>>>>>)
    [] f = "push_currency_symbol" -> BuiltPart("currency", <<<<"locale", <<a[1]>>>>, <<"symbol", <<a[2]>>>>>>)
    [] f = "push_text_content" -> BuiltPart("text_content", <<>>)
    [] f = "push_am_pm" -> BuiltPart("am_pm", <<>>)
    [] f = "push_day" -> BuiltPart("day", <<<<"style", <<a[1]>>>>>>)
    [] f = "push_year" -> BuiltPart("year", <<<<"style", <<a[1]>>>>>>)
    [] f = "push_hours" -> BuiltPart("hours", <<<<"style", <<a[1]>>>>>>)
    [] f = "push_minutes" -> BuiltPart("minutes", <<<<"style", <<a[1]>>>>>>)
    [] f = "push_seconds" -> BuiltPart("seconds", <<<<"style", <<a[1]>>>>, <<"decimal_places", <<a[2]>>>>>>)
    [] f = "push_month" -> BuiltPart("month", <<<<"style", <<a[1]>>>>>> \o IfOpt(a[2], <<"textual", <<>>>>))
    [] f = "push_day_of_week" -> BuiltPart("day_of_week", <<<<"style", <<a[1]>>>>, <<"calendar", <<a[2]>>>>>>)
    [] f = "push_era" -> BuiltPart("era", <<<<"style", <<a[1]>>>>, <<"calendar", <<a[2]>>>>>>)
    [] f = "push_quarter" -> BuiltPart("quarter", <<<<"style", <<a[1]>>>>, <<"calendar", <<a[2]>>>>>>)
    [] f = "push_week_of_year" -> BuiltPart("week_of_year", <<<<"calendar", <<a[1]>>>>>>)
PartBy(p) == IF p[1] \in DOMAIN PartsOf THEN BuiltPart(p[1], p[2]) ELSE PushPart(p[1], p[2][1][2])
PartDiff(want, out) ==
  IF Len(want) # Len(out) THEN <<"number of parts", Len(want), Len(out)>>
  ELSE LET wrong == {i \in DOMAIN want : \/ want[i].el # out[i][1] \/ want[i].m # {out[i][2][j] : j \in DOMAIN out[i][2]}
                                         \/ want[i].c # out[i][3] \/ want[i].p # out[i][4]}
       IN IF wrong = {} THEN <<>> ELSE LET i == CHOOSE i \in wrong : TRUE IN <<"part", i, "expected", want[i], "got", out[i]>>
FormatCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res, e.parts>>
  ELSE LET d == PartDiff([i \in DOMAIN e.parts |-> PartBy(e.parts[i])], e.out.parts)
       IN IF d # <<>> THEN d ELSE IF e.out.m # <<>> THEN <<"attributes of the format", e.out.m>> ELSE <<>>

(* ---- ready-made formats ---- *)
TextPart(x) == BuiltPart("text", <<<<"text", <<<<x>>>>>>>>)
LongPart(b) == BuiltPart(b, <<<<"long_style", <<>>>>>>)
PlacesOpt(n) == <<<<"fixed_decimal_places", <<<<n>>>>>>>>
OneDigitOpt == <<<<"min_integer_digits", <<<<"1">>>>>>>>
DecimalsOpt(a) == <<<<"decimal_places", <<a>>>>>>
FixedOpt(a) == <<<<"fixed_decimal_places", <<a>>>>>>
MoneyPart == BuiltPart("number", PlacesOpt("2") \o <<GroupOpt>>)
Symbol(l, s) == BuiltPart("currency", <<<<"locale", <<l>>>>, <<"symbol", <<s>>>>>>)
ClockParts == <<LongPart("hours"), TextPart(":"), LongPart("minutes"), TextPart(":"), LongPart("seconds")>>
DmyParts == <<LongPart("day"), TextPart("."), LongPart("month"), TextPart("."), LongPart("year")>>
MdyParts == <<LongPart("month"), TextPart("/"), LongPart("day"), TextPart("/"), LongPart("year")>>
IsoParts == <<LongPart("year"), TextPart("-"), LongPart("month"), TextPart("-"), LongPart("day")>>
ReadyParts(f, a) ==
  CASE f \in {"create_boolean_format", "create_loc_boolean_format"} -> <<BuiltPart("boolean", <<>>)>>
    [] f = "create_loc_number_format" -> <<BuiltPart("number", OneDigitOpt \o DecimalsOpt(a[2]) \o IfOpt(a[3], GroupOpt))>>
    [] f = "create_loc_number_format_fixed" -> <<BuiltPart("number", OneDigitOpt \o FixedOpt(a[2]) \o IfOpt(a[3], GroupOpt))>>
    [] f = "create_number_format" -> <<BuiltPart("number", DecimalsOpt(a[1]) \o IfOpt(a[2], GroupOpt))>>
    [] f = "create_number_format_fixed" -> <<BuiltPart("number", OneDigitOpt \o FixedOpt(a[1]) \o IfOpt(a[2], GroupOpt))>>
    [] f = "create_loc_percentage_format" -> <<BuiltPart("number", DecimalsOpt(a[2])), TextPart("%")>>
    [] f = "create_percentage_format" -> <<BuiltPart("number", FixedOpt(a[1])), TextPart("%")>>
    [] f = "create_loc_currency_prefix" -> <<Symbol(a[2], a[3]), TextPart(" "), MoneyPart>>
    [] f = "create_loc_currency_suffix" -> <<MoneyPart, TextPart(" "), Symbol(a[2], a[3])>>
    [] f = "create_currency_prefix" -> <<Symbol(a[1], a[2]), TextPart(" "), MoneyPart>>
    [] f = "create_currency_suffix" -> <<MoneyPart, TextPart(" "), Symbol(a[1], a[2])>>
    [] f \in {"create_loc_date_dmy_format", "create_date_dmy_format"} -> DmyParts
    [] f \in {"create_loc_date_mdy_format", "create_date_mdy_format"} -> MdyParts
    [] f = "create_date_iso_format" -> IsoParts
    [] f = "create_loc_datetime_format" -> DmyParts \o <<TextPart(" ")>> \o ClockParts
    [] f = "create_datetime_format" -> IsoParts \o <<TextPart(" ")>> \o ClockParts
    [] f \in {"create_loc_time_format", "create_loc_time_interval_format", "create_time_of_day_format", "create_time_interval_format"} -> ClockParts
\* default formats of a workbook made for a locale: what each has to show, in any arrangement
Shows == [bool |-> {"number:boolean"}, number |-> {"number:number"}, percent |-> {"number:number"}, currency |-> {"number:currency-symbol", "number:number"},
          date |-> {"number:day", "number:month", "number:year"}, datetime |-> {"number:day", "number:month", "number:year", "number:hours", "number:minutes", "number:seconds"},
          time |-> {"number:hours", "number:minutes", "number:seconds"}, interval |-> {"number:hours", "number:minutes", "number:seconds"}]
Bundled == {<<"de", "", "AT">>, <<"cs", "", "CZ">>, <<"en", "", "US">>, <<"en", "", "">>}
RoleCheck(l, x) ==
  LET els == IF x.fmt = <<>> THEN <<>> ELSE [i \in DOMAIN x.fmt[1].parts |-> x.fmt[1].parts[i][1]]
      real == SelectSeq(els, LAMBDA y : y \notin {"number:text", "number:am-pm"})
      at == FoldLeft(LAMBDA m, d : Apply1(m, "attr", d), {}, LocaleDoes(<<"number:language", "number:country", "number:script">>, l))
            \cup (IF x.role = "interval" THEN {<<"attr", "number:truncate-on-overflow", "false">>} ELSE {})
  IN IF x.used # <<x.name>> THEN <<"default style", x.role, x.style, "uses", x.used>>
     ELSE IF x.def # <<x.style>> THEN <<"style of the value type", x.role, x.def>>
     ELSE IF (x.fmt # <<>>) # (l \in Bundled) THEN <<"default format", x.role, x.fmt>>
     ELSE IF x.fmt = <<>> THEN <<>>
     ELSE IF Len(real) # Cardinality(Shows[x.role]) \/ {real[i] : i \in DOMAIN real} # Shows[x.role] THEN <<"default format shows", x.role, els>>
     ELSE IF x.role = "percent" /\ ~\E i \in DOMAIN els : els[i] = "number:text" /\ x.fmt[1].parts[i][3] = <<"%">> THEN <<"default format", x.role, x.fmt>>
     ELSE MapDiff(at, x.fmt[1].m)
LocaleCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res, e.l>>
  ELSE LET bad == {i \in DOMAIN e.out : RoleCheck(e.l, e.out[i]) # <<>>}
       IN IF {e.out[i].role : i \in DOMAIN e.out} # DOMAIN Shows THEN <<"roles">>
          ELSE IF bad = {} THEN <<>> ELSE LET i == CHOOSE i \in bad : TRUE IN <<e.l>> \o RoleCheck(e.l, e.out[i])
Localized(f) == Len(f) > 10 /\ SubSeq(f, 1, 11) = "create_loc_"
ReadyAttrs(f, a) ==
  (IF Localized(f) THEN FoldLeft(LAMBDA m, d : Apply1(m, "attr", d), {}, LocaleDoes(<<"number:language", "number:country", "number:script">>, a[1])) ELSE {})
  \cup (IF f \in {"create_loc_time_interval_format", "create_time_interval_format"} THEN {<<"attr", "number:truncate-on-overflow", "false">>} ELSE {})
ReadyCheck(e) ==
  IF e.res # "ok" THEN <<"failed", e.op, e.res, e.f>>
  ELSE LET d == PartDiff(ReadyParts(e.f, e.a), e.out.parts)
           m == MapDiff(ReadyAttrs(e.f, e.a), e.out.m)
       IN IF d # <<>> THEN <<e.f, d>> ELSE IF m # <<>> THEN <<e.f, m>> ELSE <<>>
=============================================================================
