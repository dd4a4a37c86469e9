-------------------------------- MODULE RfMC --------------------------------
(* Every pattern of losses in a scan of an RF parameter: the parameter is back   *)
(* after every step, and any usable points lead to the same correction.          *)
EXTENDS Scan
CONSTANTS DEEP
VARIABLES c, p, pts, out
vars == <<c, p, pts, out>>
T == 4
Init == /\ c \in [n : IF DEEP THEN 4..6 ELSE {4}, lo : {-60, -24}, hi : {60, 120}, root : IF DEEP THEN -3..3 ELSE {-3, 0, 1}, slope : IF DEEP THEN {-2, -1, 0, 1, 3} ELSE {-2, 0, 1}, min : {3}]
        /\ p = 0 /\ pts = <<>> /\ out = "run"
Scan == /\ out = "run" /\ Len(pts) < c.n /\ p = 0
        /\ p' = Step(c.lo, c.hi, c.n, Len(pts) + 1) /\ UNCHANGED <<c, pts, out>>
Used == p # 0 \/ Step(c.lo, c.hi, c.n, Len(pts) + 1) = 0
\* the energy gained per turn is proportional to the distance from the root
Look == /\ out = "run" /\ Len(pts) < c.n /\ Used
        /\ \E tu \in {0, 2, 3, T} : pts' = Append(pts, [p |-> Step(c.lo, c.hi, c.n, Len(pts) + 1), turns |-> tu, g |-> c.slope * (Step(c.lo, c.hi, c.n, Len(pts) + 1) - 8 * c.root)])
        /\ p' = 0 /\ UNCHANGED <<c, out>>
Turns == [k \in DOMAIN pts |-> pts[k].turns]
Good == {k \in DOMAIN pts : pts[k].turns >= 3}
\* the zero of the straight line through two usable points
Root(j, k) == LET dg == pts[k].g - pts[j].g
                  num == pts[j].p * pts[k].g - pts[k].p * pts[j].g
              IN <<num, dg>>
End == /\ out = "run" /\ Len(pts) = c.n
       /\ \/ Usable(Turns) < c.min /\ out' = "raise" /\ p' = 0
          \/ Usable(Turns) >= c.min /\ c.slope = 0 /\ out' = "vague" /\ p' = 0
          \/ /\ Usable(Turns) >= c.min /\ c.slope # 0
             /\ \E j, k \in Good : pts[j].p # pts[k].p /\ LET r == Root(j, k) IN 8 * c.root * r[2] = r[1]
             /\ p' = 8 * c.root /\ out' = "done"
       /\ UNCHANGED <<c, pts>>
Next == Scan \/ Look \/ End
Spec == Init /\ [][Next]_vars
Back == Len(pts) = c.n /\ out = "run" => p = 0
Same == out = "done" => \A j, k \in Good : pts[j].p # pts[k].p => 8 * c.root * Root(j, k)[2] = Root(j, k)[1]
Removes == out = "done" => c.slope * (p - 8 * c.root) = 0
Refused == out \in {"raise", "vague"} => p = 0
Ends == out = "run" => ENABLED Next
=============================================================================
