------------------------------ MODULE BbaTrace ------------------------------
(* Decides recorded beam-based alignments: every injection is a step *)
EXTENDS Bba, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, par, n
vars == <<t, i, par, n>>
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Same(st) == IF st.oth THEN {} ELSE {V("other", st.what, "unchanged", st.what)}
Is(name, key, e, g) == IF e = g THEN {} ELSE {V(name, key, e, g)}
LIM == 25166        \* the outlier limit in 2^-24 m

(* ------------------------------------------------- during the measurement *)
Off(a, b) == {k \in DOMAIN a : a[k] # b[k]}
BinjDiffs(st) == Same(st) \cup Is("turns of the start", "longitudinal", par.z5, st.z5)
  \cup (IF par.bad = "" THEN {} ELSE {V("refuse", par.bad, "no injection", n + 1)})
  \cup (IF Cardinality(Off(st.mag, par.mag)) <= 1 THEN {} ELSE {V("magnets", "one at a time", par.mag, st.mag)})
  \cup (IF \E p \in {0, 1} : Off(st.z, par.z) \subseteq {2 * p + 1, 2 * p + 2} THEN {} ELSE {V("launch", "one plane at a time", par.z, st.z)})

(* ------------------------------------------------------------ at the end *)
Restored(st) == Same(st) \cup Is("restore", "magnets", par.mag, st.mag) \cup Is("restore", "phase quadrupoles", par.qp, st.qp)
  \cup (IF st.exact THEN {} ELSE {V("restore", "injection", par.z, st.z)}) \cup Is("restore", "turns", par.turns, st.turns)
  \cup Is("restore", "longitudinal", par.z5, st.z5)
Given(d, b) == {j \in DOMAIN par.bo[d] : par.bo[d][j] = b}
\* the centre of the magnet of the j-th BPM in plane d, seen from the design trajectory
Seen(st, d, j) ==
  LET b == par.bo[d][j]  m == par.mo[d][j]  z == par.z[2 * d - 1]  w == par.z[2 * d]
      X == st.ret[d][j] + par.off[b][d] + 16 * par.bsup[b][d] - 16 * Straight(z, w, par.sb[b])
      c == par.mc[m][d] - Straight(z, w, par.sm[m])
  IN ABS(st.ret[d][j]) < 60000 /\ Centred(X, c, par.a, par.sb[b], par.sm[m], 4)
Levers(d, j) == ABS(Lever(par.a, par.sb[par.bo[d][j]])) >= 6 /\ ABS(Lever(par.a, par.sm[par.mo[d][j]])) >= 6
\* a skew quadrupole or sextupole moves the beam on a BPM behind it also at its centre, unless its strengths average to zero
Exact(d, j) == par.mk = "quad" \/ par.sym \/ par.sb[par.bo[d][j]] <= par.sm[par.mo[d][j]]
Sees(d, j) == par.loss = "no" /\ Len(par.sb) > 1
Results(st, d, j) ==
  IF ~Levers(d, j) THEN {}
  ELSE IF st.ret[d][j] = NANV THEN (IF Sees(d, j) THEN {V("centre", <<d, j>>, "a number", "nan")} ELSE {})
  ELSE IF par.loss = "dark" THEN {V("centre", <<d, j>>, "no beam", st.ret[d][j])}
  ELSE IF ~Exact(d, j) \/ Seen(st, d, j) THEN {} ELSE {V("centre", <<d, j, par.bo[d][j], par.mo[d][j]>>, "beam in the centre of the magnet", st.ret[d][j])}
Reads(st, b, d) ==
  LET g == Given(d, b)  ch == st.off[b][d] - par.off[b][d]
  IN IF g = {} THEN Is("offset", <<b, d>>, 0, ch)
     ELSE LET j == CHOOSE j \in g : TRUE  o == st.ret[d][j]  e == st.err[d][j]
              yes == o # NANV /\ ABS(ch - o) <= 1  no == ch = 0
          IN IF e >= 0 /\ Surely(o, e, LIM) THEN (IF yes THEN {} ELSE {V("apply", <<b, d>>, o, ch)})
             ELSE IF e >= 0 /\ Never(o, e, LIM) THEN (IF no THEN {} ELSE {V("apply", <<b, d>>, 0, ch)})
             ELSE IF yes \/ no THEN {} ELSE {V("apply", <<b, d>>, <<0, o>>, ch)}
BendDiffs(st) ==
  IF par.bad # "" THEN Restored(st) \cup Is("exc", par.bad, "ValueError", st.exc) \cup Is("offset", par.bad, par.off, st.off)
  ELSE Restored(st) \cup Is("exc", "bba", "", st.exc)
       \cup (IF st.exc # "" THEN {} ELSE
             UNION {Results(st, d, j) : <<d, j>> \in {<<d, j>> \in (1..2) \X (1..9) : d \in DOMAIN par.bo /\ j \in DOMAIN par.bo[d]}}
             \cup UNION {Reads(st, b, d) : b \in DOMAIN st.off, d \in DOMAIN par.bo}
             \cup UNION {Is("offset", <<b, d>>, par.off[b][d], st.off[b][d]) : b \in DOMAIN st.off, d \in {1, 2} \ DOMAIN par.bo})

(* --------------------------------------------- applying given results *)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Total(f, S \ {k})
AMAX == 1048576     \* the limit in the unit of the given results: 3/125 of 2^-24 m
ApplyDiffs(st) ==
  LET P == DOMAIN st.bo
      Ok(d, j) == Applied(st.o[d][j], st.e[d][j], AMAX)
      Ch(d, b) == LET S == {j \in DOMAIN st.bo[d] : st.bo[d][j] = b /\ Ok(d, j)} IN Total(st.o[d], S)
  IN Same(st) \cup Is("exc", "apply", "", st.exc)
     \cup (IF st.exc # "" THEN {} ELSE UNION {Is("flag", <<d, j, st.o[d][j], st.e[d][j]>>, ~Ok(d, j), st.flag[d][j]) : d \in P, j \in DOMAIN st.bo[1]})
     \cup UNION {IF d \in P THEN (IF ABS(125 * (st.off[b][d] - st.off0[b][d]) - 3 * Ch(d, b)) <= 250 THEN {} ELSE {V("apply", <<b, d>>, Ch(d, b), st.off[b][d] - st.off0[b][d])})
                 ELSE Is("offset", <<b, d>>, st.off0[b][d], st.off[b][d]) : b \in DOMAIN st.off, d \in {1, 2}}

(* -------------------------------------------------- simulated alignment *)
FakeDiffs(st) ==
  LET P == DOMAIN st.bo
      J == DOMAIN st.bo[1]
      Flag(d, j) == st.errors = <<>> \/ st.errors[d][j]
      Rem(b, d) == (st.off0[b][d] \div 16) - st.rel[b][d]          \* before the call, in U
      Plane(d) == [j \in J |-> Rem(st.bo[d][j], d)]
      Ok(d) == {j \in J : ~Flag(d, j)}
      Of(d, b) == {j \in J : st.bo[d][j] = b}
      New(b, d) == st.off[b][d] - 16 * st.rel[b][d]                \* in 1/16 U
      Good(b, d) == IF d \notin P \/ ~\E j \in J : st.bo[d][j] = b /\ Flag(d, j) THEN st.off[b][d] = st.off0[b][d]
                    ELSE IF st.given # <<>> THEN ABS(New(b, d)) <= 32 * st.given[d] + 1
                    ELSE IF Ok(d) = {} THEN st.off[b][d] = st.off0[b][d]
                    ELSE Within2Rms(New(b, d), Plane(d), Ok(d))
  IN Same(st)
     \cup (IF st.errors = <<>> /\ st.given = <<>>
           THEN Is("exc", "nothing given", "ValueError", st.exc) \cup Is("offset", "nothing given", st.off0, st.off)
           ELSE Is("exc", "fake", "", st.exc)
                \cup {V("fake", <<b, d>>, st.rel[b][d] * 16, st.off[b][d]) : <<b, d>> \in {<<b, d>> \in (DOMAIN st.off) \X {1, 2} : ~Good(b, d)}})

Diffs(st) == CASE st.op = "binj" -> BinjDiffs(st) [] st.op = "bend" -> BendDiffs(st)
               [] st.op = "apply" -> ApplyDiffs(st) [] st.op = "fake" -> FakeDiffs(st) [] OTHER -> {}
Init == t \in 1..Len(Traces) /\ i = 0 /\ par = <<>> /\ n = 0
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN /\ \A d \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
        /\ par' = IF st.op = "bstart" THEN st ELSE par
        /\ n' = IF st.op = "bstart" THEN 0 ELSE n + 1
Spec == Init /\ [][Next]_vars
=============================================================================
