----------------------------- MODULE SteerTrace -----------------------------
(* Decides recorded runs of the trajectory and orbit corrections *)
EXTENDS Steer, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, s, sp, rd
vars == <<t, i, s, sp, rd>>
TOL == 64
WIGMAX == 2300000  \* 2.1e-3
MAXWIG == 900
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Nil == [hist |-> <<>>, rms |-> <<>>, k |-> 0, mode |-> "none", lim |-> 0, best |-> 0, wig |-> <<>>]
Near(a, b) == ABS(a - b) <= TOL
\* columns: horizontal correctors, vertical correctors, then possibly the frequency
NCol(c) == Len(c.cmh) + Len(c.cmv) + (IF c.rf THEN 1 ELSE 0)
Ord(c, j) == IF j <= Len(c.cmh) THEN c.cmh[j] ELSE IF j <= Len(c.cmh) + Len(c.cmv) THEN c.cmv[j - Len(c.cmh)] ELSE 0
Lim(c, j) == IF j <= Len(c.cmh) THEN c.limh[j] ELSE IF j <= Len(c.cmh) + Len(c.cmv) THEN c.limv[j - Len(c.cmh)] ELSE 0
Target(c, j, refToo) == IF Upstream(c, Ord(c, j), Now(s)) THEN Clip(sp[j] + Kick(c, rd, j, refToo), Lim(c, j)) ELSE sp[j]
IsStep(c, st) == IF c.phys THEN \A j \in 1..NCol(c) : st.sp[j] # sp[j] => Upstream(c, Ord(c, j), Now(s)) ELSE \E refToo \in BOOLEAN : \A j \in 1..NCol(c) : Near(st.sp[j], Target(c, j, refToo))
PlaneSet(c, p) == IF p = 1 THEN 1..Len(c.cmh) ELSE (Len(c.cmh) + 1)..(Len(c.cmh) + Len(c.cmv))
Moved(st, S) == {j \in S : ABS(st.sp[j] - sp[j]) > 0}
IsWig(c, st) == LET up == MaxI(Furthest(s), 1) IN
   /\ \A j \in 1..NCol(c) : st.sp[j] # sp[j] => Ord(c, j) > 0 /\ (up > c.nb \/ Ord(c, j) <= c.bord[up]) /\ ABS(st.sp[j] - sp[j]) <= WIGMAX
   /\ \A p \in {1, 2} : LET M == {j \in Moved(st, PlaneSet(c, p)) : Lim(c, j) = 0 \/ ABS(st.sp[j]) < Lim(c, j) - 2}
                        IN \A a, b \in M : Near(st.sp[a] - sp[a], st.sp[b] - sp[b])
DownMoved(c, st) == \E j \in 1..NCol(c) : st.sp[j] # sp[j] /\ Ord(c, j) > 0 /\ ~Upstream(c, Ord(c, j), MaxI(Furthest(s), 1))

\* normal equations: an exact response leaves no residual in the span of the responses
RECURSIVE SumRows(_, _, _, _)
SumRows(c, r, j, n) == IF n = 0 THEN 0 ELSE c.R8[n][j] * ((r[(n - 1) \div Full(c) + 1][((n - 1) % Full(c)) + 1] - c.ref[n]) \div 8) + SumRows(c, r, j, n - 1)
Clipped(c, st) == \E j \in 1..NCol(c) : Lim(c, j) > 0 /\ ABS(st.sp[j]) >= Lim(c, j) - 2
Normal(c, st) == IF ~c.phys \/ c.alg # "correct" \/ Now([s EXCEPT !.hist = <<st.reach>>, !.mode = "go"]) < Full(c) \/ Clipped(c, st) THEN {}
  ELSE {V("normal", j, 0, SumRows(c, st.rd, j, Len(c.ref))) : j \in {j \in 1..NCol(c) : ABS(SumRows(c, st.rd, j, Len(c.ref))) > 600 * Len(c.ref)}}

Common(c, st) ==
  (IF st.oth THEN {} ELSE {V("other", st.what, "nothing but the given correctors", st.what)})
  \cup UNION {IF Lim(c, j) > 0 /\ ABS(st.sp[j]) > Lim(c, j) + 2 THEN {V("limit", j, Lim(c, j), st.sp[j])} ELSE {} : j \in 1..NCol(c)}

InjDiffs(c, st) ==
  IF s.mode = "none" THEN (IF st.sp = c.start THEN {} ELSE {V("start", "setpoints", c.start, st.sp)}) \cup (IF c.refuse = "pre" THEN {V("noraise", "refusal", "no injection", "injection")} ELSE {})
  ELSE IF s.mode = "unk" THEN {}
  ELSE LET A == May(c, s) IN
   IF "step" \in A /\ IsStep(c, st) THEN Normal(c, st)
   ELSE IF "wig" \in A /\ IsWig(c, st) /\ Len(s.wig) < MAXWIG THEN {}
   ELSE IF A \cap {"step", "wig"} = {} THEN {V("late", A, s.hist, "goes on")}
   ELSE IF DownMoved(c, st) THEN {V("upstream", st.sp, c.bord, sp)}
   ELSE {V("step", <<Now(s), A>>, [j \in 1..NCol(c) |-> Target(c, j, TRUE)], st.sp)}
InjNext(c, st) ==
  IF s.mode = "none" THEN Start(st.reach, st.rms)
  ELSE IF s.mode = "unk" THEN s
  ELSE LET A == May(c, s)
           stp == "step" \in A /\ IsStep(c, st)
           wg == "wig" \in A /\ IsWig(c, st)
       IN IF stp /\ wg THEN [s EXCEPT !.mode = "unk"]
          ELSE IF wg THEN Wiggled(c, s, st.reach) ELSE Stepped(c, s, st.reach, st.rms)
EndDiffs(c, st) ==
  (IF s.mode # "none" /\ st.sp # sp THEN {V("after", "setpoints", sp, st.sp)} ELSE {})
  \cup (IF st.exc \in {"", "RuntimeError", "ValueError"} THEN {} ELSE {V("exc", "type", "RuntimeError", st.exc)})
  \cup (IF s.mode = "none" THEN (IF st.sp = c.start THEN {} ELSE {V("start", "setpoints", c.start, st.sp)})
                               \cup (IF c.refuse = "pre" /\ st.exc # "" THEN {} ELSE {V(IF c.refuse = "pre" THEN "noraise" ELSE "raise", "refusal", c.refuse, st.exc)})
        ELSE IF s.mode = "unk" THEN {}
        ELSE LET A == May(c, s) IN
          IF st.exc = "" THEN (IF "ret" \in A THEN {} ELSE {V("early", A, s.hist, "returned")})
          ELSE IF "raise" \in A \/ (NoneUpstream(c, Now(s)) /\ (c.alg = "first" \/ s.mode = "wig")) THEN {} ELSE {V("raise", A, s.hist, st.exc)})
\* closed-orbit corrections: seen at the end only
OrbDiffs(c, st) ==
  (IF st.oth THEN {} ELSE {V("other", st.what, "nothing but the given correctors", st.what)})
  \cup (IF st.exc # "" THEN {V("orbexc", "correct", "", st.exc)}
        ELSE UNION {IF ABS(st.proj1[j]) <= 40 + ABS(st.proj0[j]) \div 20 + st.big \div 200 THEN {} ELSE {V("normal", j, st.proj0[j], st.proj1[j])} : j \in DOMAIN st.proj1}
             \cup (IF \A k \in DOMAIN st.moved : ABS(st.moved[k] - st.moved[1]) <= 1 /\ (st.moved[k] # 0) = st.rf THEN {}
                   ELSE {V("rf", "frequency moved", st.rf, st.moved)}))

Init == t \in 1..Len(Traces) /\ i = 0 /\ s = Nil /\ sp = <<>> /\ rd = <<>>
Diffs(c, st) == CASE st.op = "inj" -> Common(c, st) \cup InjDiffs(c, st) [] st.op = "end" -> Common(c, st) \cup EndDiffs(c, st) [] st.op = "orb" -> OrbDiffs(c, st)
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET c == Traces[t].c
         st == Traces[t].steps[i + 1]
         ds == Diffs(c, st)
     IN /\ \A d \in ds : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
        /\ s' = IF st.op = "inj" THEN InjNext(c, st) ELSE s
        /\ sp' = IF st.op = "inj" THEN st.sp ELSE sp
        /\ rd' = IF st.op = "inj" THEN st.rd ELSE rd
Spec == Init /\ [][Next]_vars
=============================================================================
