----------------------------- MODULE SupportMC -----------------------------
(* Explores layouts of structures on a small ring: moving the injection point  *)
(* changes nothing, rigid motions stay rigid, structures move only what they    *)
(* carry.                                                                       *)
EXTENDS Support, TLC
CONSTANTS NEL, DEEP
U == 64
VARIABLES pos, str, phase
vars == <<pos, str, phase>>
C == 16
Poss == IF DEEP THEN {<<0, 4, 8, 12>>, <<0, 0, 8, 12>>, <<0, 4, 4, 12>>, <<0, 8, 12, 12>>} ELSE {<<0, 4, 4, 12>>}
Vals == IF DEEP THEN {-U, 0, 2 * U} ELSE {-U, 2 * U}
Ends == {0, U}
Rolls == IF DEEP THEN {0} ELSE {U}
Pairs == {p \in (1..NEL) \X (1..NEL) : p[1] # p[2]}
Init == pos \in Poss /\ str = <<>> /\ phase = 0
Add(kind) == \E p \in Pairs : \E x \in Vals, y \in Ends : \E r \in Rolls :
  LET st == [kind |-> kind, a |-> p[1], b |-> p[2], o0 |-> <<x, x, x>>, o1 |-> <<y, x, y>>, roll |-> r]
  IN /\ pos[p[1]] # pos[p[2]]
     /\ str' = Append(str, st)
Next == /\ phase < 3
        /\ phase' = phase + 1
        /\ pos' = pos
        /\ (str' = str \/ Add(KINDS[phase + 1]))
Spec == Init /\ [][Next]_vars
\* the same ring seen from an injection point one element later
Rot(k) == IF k = 1 THEN NEL ELSE k - 1
RPos == [k \in 1..NEL |-> LET o == IF k = NEL THEN 1 ELSE k + 1 IN IF pos[o] - pos[2] < 0 THEN pos[o] - pos[2] + C ELSE pos[o] - pos[2]]
RStr == [j \in 1..Len(str) |-> [str[j] EXCEPT !.a = Rot(str[j].a), !.b = Rot(str[j].b)]]
Movable == RPos[NEL] >= RPos[NEL - 1] \* the first element does not share its position with the second
OriginFree == (pos[1] # pos[2]) => \A k \in 1..NEL : Near(Offset(pos, C, str, k)[1], Offset(RPos, C, RStr, Rot(k))[1]) /\ Roll(str, k) = Roll(RStr, Rot(k))
NotCarried == \A k \in 1..NEL : (\A j \in 1..Len(str) : ~Carries(str[j], k)) => Offset(pos, C, str, k) = <<0, 0, 0>> /\ Roll(str, k) = 0
\* end points with equal offsets move everything they carry by just this offset
Rigid == \A k \in 1..NEL : Len(str) = 1 /\ Carries(str[1], k) => Near(Offset(pos, C, str, k)[2], str[1].o0[2])
\* along one structure the offsets lie on a line between its ends
Between == \A k \in 1..NEL : Len(str) = 1 /\ Carries(str[1], k) =>
   LET o == Offset(pos, C, str, k)[1] IN (o <= str[1].o0[1] + 1 \/ o <= str[1].o1[1] + 1) /\ (o >= str[1].o0[1] - 1 \/ o >= str[1].o1[1] - 1)
SlopeFlat == \A k \in 1..NEL : Len(str) = 1 => SlopeOk(pos, C, str, k, 2, 0)
=============================================================================
