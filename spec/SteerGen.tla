------------------------------ MODULE SteerGen ------------------------------
(* Generates behaviours of the correction protocols: how far the beam gets at     *)
(* every injection, biased towards what the protocols look for (repetition, full   *)
(* transmission, loss after success).  They are replayed into the real code.        *)
EXTENDS Steer, TLC, Json
CONSTANTS KINDS
VARIABLES c, s, seen, out
vars == <<c, s, seen, out>>
Pick(l, f) == LET d == RandomElement(1..20) IN
  IF d <= 11 THEN l ELSE IF d <= 14 THEN f ELSE IF d <= 16 THEN MaxI(l - 1, 0) ELSE IF d <= 18 THEN MinI(l + 1, f) ELSE RandomElement(0..f)
Loud(a) == a \in {"balance", "correct"}
Amp(a) == IF Loud(a) /\ RandomElement(1..4) = 1 THEN 1000 ELSE 0
Init == /\ c \in {[alg |-> a, T |-> IF a \in {"stitch", "balance"} THEN 2 ELSE 1, nb |-> n, maxsteps |-> ms, eps |-> 100, target |-> 0, nbp |-> p] :
                    a \in KINDS, n \in 2..4, ms \in {4, 5, 7, 12, 22}, p \in 1..2}
        /\ \E r \in IF c.alg = "first" THEN {0, 1, 2, c.nb} ELSE {c.nb - 1, c.nb, c.nb + 1, Full(c)} : r <= Full(c) /\ s = Start(r, <<0, 0>>) /\ seen = <<<<r, 0>>>>
        /\ out = "run"
Go(o) == LET r == IF Loud(c.alg) /\ RandomElement(1..12) > 1 THEN Full(c) ELSE Pick(Now(s), Full(c))
             m == Amp(c.alg)
             b == IF m > 0 THEN 1 ELSE 0
         IN /\ s' = IF o = "step" THEN Stepped(c, s, r, <<0, m>>) ELSE Wiggled(c, s, r)
            /\ seen' = Append(seen, <<r, b>>) /\ UNCHANGED <<c, out>>
Next == /\ out = "run" /\ Len(seen) < 60
        /\ \E o \in May(c, s) : IF o \in {"step", "wig"} THEN Go(o)
                                ELSE /\ (s.mode = "wig" => May(c, s) = {"raise"})
                                     /\ out' = o /\ UNCHANGED <<c, s, seen>>
Spec == Init /\ [][Next]_vars
Emitted == out # "run" \/ Len(seen) = 60 => PrintT("BEH " \o ToJson([alg |-> c.alg, nb |-> c.nb, T |-> c.T, maxsteps |-> c.maxsteps, nbp |-> c.nbp, seen |-> seen, out |-> out]))
=============================================================================
