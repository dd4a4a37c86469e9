-------------------------------- MODULE Bba --------------------------------
(* Beam-based alignment: where the centre of a magnet shows up on its BPM, and  *)
(* which results are applied.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
ABS(a) == IF a < 0 THEN -a ELSE a
MAX(a, b) == IF a > b THEN a ELSE b
NANV == 1777777777

(* A result o with error e, limit L: number, not beyond the limit, significant (2.5 sigma) *)
Applied(o, e, L) == o # NANV /\ ABS(o) <= L /\ 2 * ABS(o) >= 5 * e
\* measured values are known to one unit: the verdict may be open
Surely(o, e, L) == o # NANV /\ ABS(o) + 1 <= L /\ 2 * (ABS(o) - 1) >= 5 * (e + 1)
Never(o, e, L) == o = NANV \/ ABS(o) - 1 > L \/ 2 * (ABS(o) + 1) < 5 * (e - 1)

(* The beam starts at position z (unit U), slope w per 8 units of s, and is     *)
(* moved by t * (8 a[1] + s a[2]) at s.                                          *)
Straight(z, w, s) == z + (s * w) \div 8
Lever(a, s) == 8 * a[1] + s * a[2]
\* X: where the BPM at sb sees the beam (1/16 U, from the design trajectory) when the beam is c (U) from it in the magnet at sm
Centred(X, c, a, sb, sm, tol) == ABS(X * Lever(a, sm) - 16 * c * Lever(a, sb)) <= tol * MAX(ABS(Lever(a, sm)), ABS(Lever(a, sb)))

(* Simulated alignment: the remainder of an unflagged BPM, and the root mean square of all of them *)
RECURSIVE SumSq(_, _)
SumSq(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] * f[k] + SumSq(f, S \ {k})
\* |r| <= 2 rms of the values f[S], r in 1/16 units known to one
Within2Rms(r, f, S) == S # {} /\ LET m == MAX(ABS(r) - 16, 0) \div 16 IN m * m * Cardinality(S) <= 4 * SumSq(f, S) + 16 * Cardinality(S)
=============================================================================
