-------------------------------- MODULE Fit --------------------------------
(* Fits and linear algebra the corrections are built from: what they return and *)
(* what they may change.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
ABS(a) == IF a < 0 THEN -a ELSE a
MIN(a, b) == IF a < b THEN a ELSE b
MAX(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Near(a, b, tol) == ABS(a - b) <= tol

(* Two families: one common amount each *)
Common(old, new) == \A k, j \in DOMAIN old : Near(new[k] - old[k], new[j] - old[j], 1)

(* A straight beam with kicks <<s, hor, ver>>, at the end S of the line (s in 1/8 m) *)
RECURSIVE EndPos(_, _, _)
EndPos(kicks, p, S) == IF kicks = <<>> THEN 0 ELSE ((S - Head(kicks)[1]) * Head(kicks)[1 + p]) \div 8 + EndPos(Tail(kicks), p, S)
RECURSIVE EndAng(_, _)
EndAng(kicks, p) == IF kicks = <<>> THEN 0 ELSE Head(kicks)[1 + p] + EndAng(Tail(kicks), p)
AtEnd(z, kicks, S) == [k \in 1..4 |-> LET p == (k + 1) \div 2 IN
                         IF k % 2 = 1 THEN z[k] + (S * z[k + 1]) \div 8 + EndPos(kicks, p, S) ELSE z[k] + EndAng(kicks, p)]

(* Pseudo-inverse: singular values sig / 4, of which the largest n - rem, and no zero, are kept *)
Larger(sig, k) == Cardinality({j \in DOMAIN sig : sig[j] > sig[k]})
Kept(sig, k, keep) == sig[k] > 0 /\ Larger(sig, k) < keep
\* 2^16 damp / 4 * s / (s^2 + alpha^2)
Inverse(s, al, damp) == (65536 * damp * s) \div (s * s + al * al)
RECURSIVE PinvSum(_, _, _, _)
PinvSum(f, S, i, j) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f.v[i][k] * f.u[j][k] * Inverse(f.sig[k], f.al, f.damp) + PinvSum(f, S \ {k}, i, j)
PinvAt(f, i, j) == LET S == {k \in DOMAIN f.sig : Kept(f.sig, k, f.mn - f.rem)} IN PinvSum(f, S, i, j) \div (f.D * f.D)
=============================================================================
