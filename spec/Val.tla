-------------------------------- MODULE Val --------------------------------
(* Scalars of the data layer.  Every scalar is a sequence of integers, so that any two can be compared:
     <<>>           NULL
     <<0, n>>       the integer n
     <<1, c1, ...>> text (code points)
     <<2, n, d>>    the rational n/d, d > 0
     <<3, s>>       timestamp (seconds since 2000-01-01)                                            *)
EXTENDS Integers, Sequences, FiniteSets

NULL == <<>>
IsNull(v) == v = <<>>
Num(n) == <<0, n>>
Rat(n, d) == <<2, n, d>>
Ts(s) == <<3, s>>
IsNum(v) == Len(v) > 0 /\ v[1] \in {0, 2}
IsText(v) == Len(v) > 0 /\ v[1] = 1
IsTs(v) == Len(v) > 0 /\ v[1] = 3
NumN(v) == v[2]
NumD(v) == IF v[1] = 2 THEN v[3] ELSE 1
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1) ELSE a[i] < b[i]

Less(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumN(a) * NumD(b) < NumN(b) * NumD(a)
  ELSE IF IsTs(a) /\ IsTs(b) THEN a[2] < b[2]
  ELSE LexLess(a, b, 1)

Same(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumN(a) * NumD(b) = NumN(b) * NumD(a) ELSE a = b

\* an observed number has at most three decimals (denominator 1000, rounded)
Near(exp, obs) ==
  IF IsNum(exp) /\ IsNum(obs)
  THEN IF NumD(obs) = 1 THEN NumN(exp) = NumN(obs) * NumD(exp)
       ELSE Abs(NumN(exp) * 1000 - NumN(obs) * NumD(exp)) <= 2 * NumD(exp)
  ELSE exp = obs

Zeroish(v) == IF IsNull(v) THEN Num(0) ELSE v

\* text
Chars(v) == SubSeq(v, 2, Len(v))
StartsWith(v, p) == Len(v) >= Len(p) /\ SubSeq(v, 1, Len(p)) = p
EndsWithC(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
ContainsC(s, p) == \E k \in 0..(Len(s) - Len(p)) : SubSeq(s, k + 1, k + Len(p)) = p
LowerCode(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerC(s) == [i \in 1..Len(s) |-> LowerCode(s[i])]

\* three-valued logic: 0 false, 1 true, 2 unknown
T3(b) == IF b THEN 1 ELSE 0
Not3(x) == IF x = 2 THEN 2 ELSE 1 - x
And3(S) == IF 0 \in S THEN 0 ELSE IF 2 \in S THEN 2 ELSE 1
Or3(S) == IF 1 \in S THEN 1 ELSE IF 2 \in S THEN 2 ELSE 0

SeqRange(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSecond(_)
\* sum of the (integer scalar) second components of a set of pairs <<id, Num(n)>>
SumSecond(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2][2] + SumSecond(S \ {x})
=============================================================================
