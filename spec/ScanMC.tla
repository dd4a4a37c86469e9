------------------------------- MODULE ScanMC -------------------------------
(* Every transmission map over a small grid: the scan ends on the right point,  *)
(* and every spiral point lies on the grid.  Every pattern of losses in an RF    *)
(* scan: the parameter is back after every step.                                 *)
EXTENDS Scan, TLC
CONSTANTS NT, T, PARTS, SIZES
VARIABLES c, map, h, f, out
vars == <<c, map, h, f, out>>
Nom == <<0, 0>>
Outcome == {<<tu, fr>> \in (0..T) \X (0..PARTS) : (fr > 0 => tu > 0) /\ (fr = PARTS => tu = T)}
Init == /\ c \in [N : SIZES \X SIZES, n : 2..NT, full : BOOLEAN, target : 1..PARTS]
        /\ map = <<>> /\ h = <<>> /\ f = Nom /\ out = "run"
Seen(q) == \E k \in DOMAIN h : h[k].f = q
\* the scan itself: set a point of the spiral, look, set back
Try == /\ out = "run" /\ Len(h) < c.n /\ ~Stops(h, c.full, c.target)
       /\ \E a \in Spot(c.N[1], Len(h), c.n, 1), b \in Spot(c.N[2], Len(h), c.n, 2) : \E o \in Outcome :
            /\ \A k \in DOMAIN h : h[k].f = <<a, b>> => h[k].turns = o[1] /\ h[k].frac = o[2]
            /\ h' = Append(h, [f |-> <<a, b>>, turns |-> o[1], frac |-> o[2]])
       /\ f' = Nom /\ UNCHANGED <<c, map, out>>
First(s, v(_)) == CHOOSE k \in DOMAIN s : (\A j \in DOMAIN s : v(s[j]) <= v(s[k])) /\ (\A j \in 1..(k - 1) : v(s[j]) < v(s[k]))
Frac(x) == x.frac
Turn(x) == x.turns
End == /\ out = "run" /\ (Len(h) = c.n \/ Stops(h, c.full, c.target))
       /\ IF Stops(h, c.full, c.target) THEN f' = h[Len(h)].f /\ out' = "target"
          ELSE IF \A k \in DOMAIN h : h[k].turns = 0 THEN f' = Nom /\ out' = "fail"
          ELSE LET k == IF \E j \in DOMAIN h : h[j].frac > 0 THEN First(h, Frac) ELSE First(h, Turn)
               IN f' = h[k].f /\ out' = "best"
       /\ UNCHANGED <<c, map, h>>
Next == Try \/ End
Spec == Init /\ [][Next]_vars
Idle == out = "run" => f = Nom
Good == /\ out = "target" => ~c.full /\ \E k \in DOMAIN h : h[k].f = f /\ h[k].frac >= c.target
        /\ out = "best" => \E k \in BestOf(h) : h[k].f = f
        /\ out = "fail" => Nothing(h) /\ f = Nom
        /\ out = "best" /\ ~c.full => \A k \in DOMAIN h : h[k].frac < c.target
Grid == \A k \in DOMAIN h : h[k].f[1] \in 1..c.N[1] /\ h[k].f[2] \in 1..c.N[2]
\* there always is a next point, and the first one is the middle of the grid
Spiral == /\ \A i \in 0..(c.n - 1) : \A ax \in 1..2 : Spot(c.N[ax], i, c.n, ax) # {}
          /\ h # <<>> => \A ax \in 1..2 : h[1].f[ax] = c.N[ax] \div 2 + 1 \/ c.N[ax] = 1
Ends == out = "run" => ENABLED Next
=============================================================================
