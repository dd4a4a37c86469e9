------------------------------ MODULE AlignMC ------------------------------
(* A field-free straight element changes nothing, wherever it is moved; without *)
(* misalignment nothing happens at its ends; a moved element sees the oppositely *)
(* moved particle.                                                              *)
EXTENDS Align
CONSTANTS DEEP
DS == {0, 300, -200}
WS == IF DEEP THEN {0, 50, -80} ELSE {0, 50}
ZS == IF DEEP THEN {0, 400000, -700000} ELSE {0, 400000}
LS == IF DEEP THEN {0, 500, 1500} ELSE {0, 1000}
VARIABLES d, w, z, len, at, p
vars == <<d, w, z, len, at, p>>
Straight == [c |-> 1, s |-> 0, den |-> 1, rx |-> 0, rz |-> len]
NoRoll == [c |-> 1, s |-> 0, den |-> 1]
M(b) == [d |-> d, w |-> w, g |-> Straight, big |-> b]
Rolls == {NoRoll, [c |-> 3, s |-> 4, den |-> 5], [c |-> 0, s |-> 1, den |-> 1], [c |-> -4, s |-> 3, den |-> 5]}
VARIABLE big
Init == /\ d \in DS \X DS \X DS /\ w \in WS \X WS \X WS /\ len \in LS
        /\ z \in ZS \X {0, 200000} \X ZS \X {0, -150000}
        /\ big \in Rolls
        /\ big # NoRoll => w = <<0, 0, 0>>
        /\ at = "in" /\ p = z
Ent == at = "in" /\ p' = Enter(M(big), p) /\ at' = "inside" /\ UNCHANGED <<d, w, z, len, big>>
Thr == at = "inside" /\ p' = Fly(p, len) /\ at' = "end" /\ UNCHANGED <<d, w, z, len, big>>
Lea == at = "end" /\ p' = Leave(M(big), p) /\ at' = "out" /\ UNCHANGED <<d, w, z, len, big>>
Next == Ent \/ Thr \/ Lea
Spec == Init /\ [][Next]_<<vars, big>>
\* second order terms in the rotation are below 4e-8 of a metre for what is explored here
TOL == 60
Transparent == at = "out" => NearZ(p, Fly(z, len), TOL)
Identity == (d = <<0, 0, 0>> /\ w = <<0, 0, 0>> /\ big = NoRoll) =>
               /\ at = "inside" => p = z
               /\ at = "out" => p = Fly(z, len)
Opposite == at = "inside" /\ w = <<0, 0, 0>> /\ big = NoRoll /\ d[3] = 0 => p = <<z[1] - 1000 * d[1], z[2], z[3] - 1000 * d[2], z[4]>>
=============================================================================
