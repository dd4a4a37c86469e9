------------------------------ MODULE ModelMC ------------------------------
(* Every short line of drifts, gradients, kicks, correctors and BPMs, every      *)
(* launch: a corrector changes the trajectory by its column, whatever else        *)
(* happens to the beam; nothing moves upstream in the first turn.                 *)
EXTENDS Model, TLC
CONSTANTS DEEP
VARIABLES line, z, kicks
vars == <<line, z, kicks>>
U == 65536
None == <<0, 0>>
Slots == {[ty |-> "drift", L |-> 8, k |-> None, g |-> None, ap |-> <<>>], [ty |-> "thin", L |-> 0, k |-> None, g |-> <<16, 0>>, ap |-> <<>>],
          [ty |-> "thin", L |-> 0, k |-> <<64, -128>>, g |-> <<-32, 16>>, ap |-> <<>>], [ty |-> "cm", L |-> 16, k |-> <<0, 32>>, g |-> None, ap |-> <<>>]}
Mark == [ty |-> "mark", L |-> 0, k |-> None, g |-> None, ap |-> <<>>]
Cm == [ty |-> "cm", L |-> 8, k |-> None, g |-> None, ap |-> <<>>]
Thn == [ty |-> "thin", L |-> 0, k |-> None, g |-> <<8, 0>>, ap |-> <<>>]
\* BPM, something, corrector 3, something, BPM, corrector 6
Init == /\ \E a, b \in Slots : \E t \in {Cm, Thn} : line = <<Mark, a, t, b, Mark, Thn>>
        /\ z \in {<<x, px, y, py>> : x \in {1024}, px \in IF DEEP THEN {0, -512} ELSE {-512}, y \in IF DEEP THEN {0, 2048} ELSE {2048}, py \in {256}}
        /\ kicks = [k \in {3, 6} |-> <<0, 0>>]
Vals == IF DEEP THEN {-1024, 512, 4096} ELSE {-1024, 4096}
Next == \E k \in {3, 6} : \E v \in Vals : \E p \in 1..2 :
           /\ kicks[k][p] = 0 /\ (DEEP \/ kicks[IF k = 3 THEN 6 ELSE 3] = <<0, 0>>)
           /\ kicks' = [kicks EXCEPT ![k][p] = v] /\ UNCHANGED <<line, z>>
Spec == Init /\ [][Next]_vars
Bpms == <<1, 5>>
T == 2
Set(l, ks) == [k \in DOMAIN l |-> IF k \in DOMAIN ks THEN [l[k] EXCEPT !.k = <<@[1] - ks[k][1], @[2] + ks[k][2]>>] ELSE l[k]]
Read(ks) == Rows(Bpms, T, MTurns(Set(line, ks), T, [Zero EXCEPT !.v = z], 0, <<0, 0>>))
Off == [k \in {3, 6} |-> <<0, 0>>]
\* rows of all columns times kicks (2^-20), column in 2^-16
Effect(r) == LET C(k, p) == Column(line, Bpms, T, k, p)[r]
             IN ((C(3, 1) * (kicks[3][1] \div 64) + C(3, 2) * (kicks[3][2] \div 64)) \div 1024) + ((C(6, 1) * (kicks[6][1] \div 64) + C(6, 2) * (kicks[6][2] \div 64)) \div 1024)
Predicts == LET a == Read(kicks)  b == Read(Off) IN \A r \in DOMAIN a : ABS(a[r] - b[r] - Effect(r)) <= 12
\* first turn: the first BPM sees no corrector, the second one only the first; horizontal rows 1, 2 and vertical rows 5, 6
Causal == LET a == Read(kicks)  b == Read(Off)  c == Read([kicks EXCEPT ![6] = <<0, 0>>])
          IN a[1] = b[1] /\ a[5] = b[5] /\ a[2] = c[2] /\ a[6] = c[6]
NoDipole == \A s \in {<<1, 2>>, <<5>>, <<0, 3, 4>>} : ModelPoly(s)[1] = 0 /\ \A n \in 2..Len(s) : ModelPoly(s)[n] = s[n]
=============================================================================
