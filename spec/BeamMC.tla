------------------------------- MODULE BeamMC -------------------------------
(* Explores the beam and reading model: fractions never grow, averages lie      *)
(* between what is averaged, losses are consistent.                             *)
EXTENDS Beam, TLC
CONSTANTS DEEP
K == 1024
Ring == <<[ty |-> "drift", L |-> 8, k |-> <<0, 0>>, g |-> <<0, 0>>, ap |-> <<>>],
          [ty |-> "ap", L |-> 0, k |-> <<0, 0>>, g |-> <<0, 0>>, ap |-> <<-3 * K - 100, 3 * K + 100, -4 * K, 4 * K>>],
          [ty |-> "thin", L |-> 0, k |-> <<K, -K>>, g |-> <<32, 0>>, ap |-> <<>>],
          [ty |-> "mark", L |-> 0, k |-> <<0, 0>>, g |-> <<0, 0>>, ap |-> <<>>],
          [ty |-> "drift", L |-> 8, k |-> <<0, 0>>, g |-> <<0, 0>>, ap |-> <<-5 * K - 100, 5 * K + 100, -5 * K - 100, 5 * K + 100>>]>>
Z == {<<x, px, y, 0>> : x \in {-2 * K, 0, K}, px \in {-2 * K, 0, 2 * K}, y \in IF DEEP THEN {0, K} ELSE {0}}
E0 == [c |-> 3, s |-> 4, den |-> 5, off |-> <<100, -100>>, cal |-> <<8, -8>>]
E1 == [c |-> 1, s |-> 0, den |-> 1, off |-> <<0, 0>>, cal |-> <<0, 0>>]
VARIABLES turns, lost, n
vars == <<turns, lost, n>>
Init == /\ \E a, b, c \in Z : turns = <<Along(Ring, 1, Bunch(<<a, b, c>>))>>
        /\ lost \in {2, 5, 8, 11, 16} /\ n = 1
Next == n < 3 /\ turns' = Append(turns, Along(Ring, 1, turns[n][Len(Ring) + 1])) /\ n' = n + 1 /\ lost' = lost
Spec == Init /\ [][Next]_vars
M == 3
Monotone == \A t \in 1..n : \A k \in 1..Len(Ring) : Alive(turns[t][k + 1]) \subseteq Alive(turns[t][k])
                /\ (t < n => Alive(turns[t + 1][1]) = Alive(turns[t][Len(Ring) + 1]))
\* once a BPM reads nothing, no later one does
Dark == \A t \in 1..n : \A k, l \in 1..Len(Ring) : k <= l /\ ~One(turns[t][k], E1, lost).has => ~One(turns[t][l], E1, lost).has
Agree == \A t \in 1..n : \A k \in 1..Len(Ring) : (Over(Cardinality(Alive(turns[t][Len(Ring) + 1])), M, lost) => One(turns[t][k], E1, lost).has)
Between == LET s == [t \in 1..n |-> One(turns[t][4], E0, lost)]
               m == Mean(s)
           IN m.has => \A d \in 1..2 : (\E j \in Has(s) : s[j].r[d] <= m.r[d] + 1) /\ (\E j \in Has(s) : s[j].r[d] >= m.r[d] - 1)
NoErrors == \A t \in 1..n : LET o == One(turns[t][4], E1, lost) IN o.has => \E j \in DOMAIN turns[t][4] : turns[t][4][j].on /\ turns[t][4][j].v[1] <= o.r[1] + 1
=============================================================================
