----------------------------- MODULE FilterText -----------------------------
(* The model's filter language for strings, numbers, NULLs and booleans: from the text of a filter value to the
   condition on an expression e.  (Date expressions have their own module.)  Text is a sequence of code points.

     NULL  -NULL  TRUE  FALSE                is null / is not null / equality with a boolean
     a, b, c          -a, -b                 one of / none of
     <=n >=n <>n !=n =n >n <n                comparison with a number
     %x%  x%  %x     -%x%  -x%  -%x          contains / starts with / ends with, ignoring case, and their negations
     x    -x                                 equal / not equal                                                        *)
EXTENDS Val

PCT == 37
DASH == 45
COMMA == 44
SPACE == 32

TextV(chars) == <<1>> \o chars
\* "NULL", "-NULL", "TRUE", "FALSE"
C_NULL == <<78, 85, 76, 76>>
C_TRUE == <<84, 82, 85, 69>>
C_FALSE == <<70, 65, 76, 83, 69>>

\* split at ", "
RECURSIVE SplitComma(_, _)
SplitComma(s, cur) ==
  IF s = <<>> THEN <<cur>>
  ELSE IF Len(s) >= 2 /\ s[1] = COMMA /\ s[2] = SPACE THEN <<cur>> \o SplitComma(SubSeq(s, 3, Len(s)), <<>>)
  ELSE SplitComma(Tail(s), Append(cur, s[1]))

RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF s[1] = SPACE THEN Strip(Tail(s))
            ELSE IF s[Len(s)] = SPACE THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE Digits(_, _)
Digits(s, acc) == IF s = <<>> THEN acc ELSE Digits(Tail(s), acc * 10 + (s[1] - 48))
Number(s) == LET t == Strip(s) IN IF t[1] = DASH THEN Num(-Digits(Tail(t), 0)) ELSE Num(Digits(t, 0))
IsNumber(s) == LET t == Strip(s) u == IF t # <<>> /\ t[1] = DASH THEN Tail(t) ELSE t
               IN u # <<>> /\ \A i \in 1..Len(u) : u[i] \in 48..57

\* a list item is compared as a number when the field is a number
ItemV(s, numeric) == IF numeric /\ IsNumber(s) THEN Number(s) ELSE TextV(s)

CmpC(f, e, v) == [op |-> "cmp", f |-> f, e |-> e, v |-> [op |-> "const", v |-> v]]
TextC(f, e, chars) == [op |-> "text", f |-> f, ci |-> TRUE, e |-> e, v |-> TextV(chars)]
NotC(c) == [op |-> "not", c |-> c]
Mid(s, a, b) == SubSeq(s, a, b)

Wild(e, s) ==   \* s without a leading dash
  IF Len(s) >= 1 /\ s[1] = PCT /\ s[Len(s)] = PCT THEN TextC("contains", e, Mid(s, 2, Len(s) - 1))
  ELSE IF Len(s) >= 1 /\ s[1] = PCT THEN TextC("ends", e, Mid(s, 2, Len(s)))
  ELSE IF Len(s) >= 1 /\ s[Len(s)] = PCT THEN TextC("starts", e, Mid(s, 1, Len(s) - 1))
  ELSE CmpC("eq", e, TextV(s))

MeaningOf(e, s, numeric) ==
  LET items == SplitComma(s, <<>>)
      two == IF Len(s) >= 2 THEN SubSeq(s, 1, 2) ELSE <<>>
      sym2 == CASE two = <<60, 61>> -> "le" [] two = <<62, 61>> -> "ge" [] two = <<60, 62>> -> "ne"
                [] two = <<33, 61>> -> "ne" [] OTHER -> ""
      sym1 == CASE s[1] = 61 -> "eq" [] s[1] = 62 -> "gt" [] s[1] = 60 -> "lt" [] OTHER -> ""
  IN IF s = C_NULL THEN [op |-> "null", e |-> e]
     ELSE IF s = <<DASH>> \o C_NULL THEN [op |-> "notnull", e |-> e]
     ELSE IF s = C_TRUE THEN [op |-> "true", e |-> e]
     ELSE IF s = C_FALSE THEN [op |-> "false", e |-> e]
     ELSE IF Len(items) > 1 THEN
            (IF \A i \in 1..Len(items) : items[i][1] = DASH
             THEN [op |-> "notin", e |-> e, vs |-> [i \in 1..Len(items) |-> ItemV(Strip(Tail(items[i])), numeric)]]
             ELSE [op |-> "in", e |-> e, vs |-> [i \in 1..Len(items) |-> ItemV(Strip(items[i]), numeric)]])
     ELSE IF sym2 # "" THEN CmpC(sym2, e, Number(SubSeq(s, 3, Len(s))))
     ELSE IF sym1 # "" THEN CmpC(sym1, e, Number(Tail(s)))
     ELSE IF s[1] = DASH THEN NotC(Wild(e, Tail(s)))
     ELSE Wild(e, s)
=============================================================================
