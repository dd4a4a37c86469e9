------------------------------ MODULE SteerMC ------------------------------
(* Every history of readings: the protocols always end, success only with the  *)
(* promised transmission and stability, never a dead end.                       *)
EXTENDS Steer, TLC
CONSTANTS MAXSTEPS, MAXWIG, DEEP
VARIABLES c, s, out
vars == <<c, s, out>>
Conf(a, ms) == [alg |-> a, T |-> IF a \in {"stitch", "balance"} THEN 2 ELSE 1, nb |-> 2, maxsteps |-> ms, eps |-> 100, target |-> 0, nbp |-> 1]
Rms == {<<0, 0>>, <<0, 1000>>}
RmsOf(a) == IF a \in {"balance", "correct"} THEN Rms ELSE {<<0, 0>>}
Init == /\ \E a \in {"first", "stitch", "balance", "correct"} : \E ms \in 1..MAXSTEPS : c = Conf(a, ms)
        /\ \E r \in 0..Full(c) : \E m \in RmsOf(c.alg) : s = Start(r, m)
        /\ out = "run"
StepA == "step" \in May(c, s) /\ \E r \in 0..Full(c) : \E m \in RmsOf(c.alg) : s' = Stepped(c, s, r, m) /\ UNCHANGED <<c, out>>
WigA == "wig" \in May(c, s) /\ Len(s.wig) < MAXWIG /\ \E r \in IF DEEP THEN 0..Full(c) ELSE {1, Full(c)} : s' = Wiggled(c, s, r) /\ UNCHANGED <<c, out>>
EndA == \E o \in May(c, s) \cap {"ret", "raise"} : out' = o /\ UNCHANGED <<c, s>>
Next == out = "run" /\ (StepA \/ WigA \/ EndA)
Spec == Init /\ [][Next]_vars
Type == s.k <= c.maxsteps
Alive == out = "run" => May(c, s) # {}
RetFull == out = "ret" => s.mode = "go" /\ Last(s.hist) = Full(c) /\ s.k >= 1
              /\ (c.alg \in {"first", "stitch"} => Repro(s.hist, NREPRO))
              /\ (c.alg = "balance" => \A j \in DOMAIN s.hist : s.hist[j] = Full(c))
RetStable == out = "ret" /\ c.alg \in {"balance", "correct"} /\ c.maxsteps # 1 => MayStable(c, s.rms, MinI(NREPRO, c.maxsteps))
NoSignal == (out = "run" /\ s.mode = "go" /\ Last(s.hist) = 0 /\ ~Repro(s.hist, NWIG) /\ c.alg # "stitch" ) => May(c, s) = {"raise"}
LastChance == s.k >= c.maxsteps => "step" \notin May(c, s)
LimitKept == \A a \in {-9, -3, 0, 4, 12} : \A l \in {0, 5} : l > 0 => ABS(Clip(a, l)) <= l
=============================================================================
