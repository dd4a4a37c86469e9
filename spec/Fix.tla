-------------------------------- MODULE Fix --------------------------------
(* Fixed point arithmetic for field quantities: an integer v stands for       *)
(* v / ONE.  TLC integers are 32 bit; UNK stands for "not exactly             *)
(* representable here": nothing is claimed about such a value.                *)
EXTENDS Integers, Sequences, FiniteSets

ONE == 4096
UNK == 1999999999          \* no claim
INF == 1888888888          \* +infinity (limits)
NAN == 1777777777          \* not a number (logged values only)
BADV == 1666666666         \* logged value that is not representable
LIMV == 1000000000         \* values beyond this are not computed with

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
IsNum(a) == a < LIMV /\ a > -LIMV
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

\* signed division helpers: b > 0 is required by TLC
DivT(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Divides(b, a) == Abs(a) % Abs(b) = 0

Add(a, b) == IF IsNum(a) /\ IsNum(b) /\ Abs(a) < 500000000 /\ Abs(b) < 500000000 THEN a + b ELSE UNK
Neg(a) == IF a = UNK THEN UNK ELSE -a
Sub(a, b) == Add(a, Neg(b))
SafeProd(a, b) == a = 0 \/ b = 0 \/ Abs(b) <= 2000000000 \div Abs(a)
Mul(a, b) == IF ~(IsNum(a) /\ IsNum(b)) THEN UNK
             ELSE IF ~SafeProd(a, b) THEN UNK
             ELSE IF Divides(ONE, a * b) THEN DivT(a * b, ONE) ELSE UNK
Div(a, b) == IF ~(IsNum(a) /\ IsNum(b)) \/ b = 0 \/ Abs(a) > 400000 THEN UNK
             ELSE IF Divides(b, a * ONE) THEN DivT(a * ONE, b) ELSE UNK

\* equal, or no claim
Eq(exp, got) == exp = UNK \/ exp = got
SeqEq(e, g) == Len(e) = Len(g) /\ \A k \in 1..Len(e) : Eq(e[k], g[k])

At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Pad(s, n) == [k \in 1..Max(Len(s), n) |-> At(s, k)]
AddP(u, v) == [k \in 1..Max(Len(u), Len(v)) |-> Add(At(u, k), At(v, k))]
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Add(Head(s), SumSeq(Tail(s)))
Range(s) == {s[k] : k \in 1..Len(s)}
=============================================================================
