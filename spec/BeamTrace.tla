------------------------------ MODULE BeamTrace ------------------------------
(* Decides recorded injections and readings *)
EXTENDS Beam, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, mode, spread
vars == <<t, i, mode, spread>>
TOL == 24
ZTOL == 64
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Ring == Traces[t].ring
IsN(a) == ABS(a) < 20000000
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---------------------------------------------------------------- BPM reading *)
\* certain outcome of one shot at a BPM whose sum signal has a relative error of at most su / 64
Sure(b, lostat, su) ==
  LET n == Cardinality(Alive(b))
      m == Cardinality(DOMAIN b)
  IN su = 0 \/ n = 0 \/ (16 * n * (64 - su) > 64 * (16 - lostat) * m) \/ (16 * n * (64 + su) < 64 * (16 - lostat) * m)
\* ncol readings of st.bpm expected at output columns
ReadDiffs(st) ==
  LET B == Len(st.bpm)
      orb == st.mode = "ORB"
      shots == [s \in 1..st.S |-> IF orb THEN <<>> ELSE Turns(Ring, st.T, Bunch(st.z[s]))]
      T == IF orb THEN 1 ELSE st.T
      m == IF orb THEN 1 ELSE st.P
      at(s, tt, b) == IF orb THEN [j \in {1} |-> [on |-> TRUE, fz |-> FALSE, v |-> <<st.orb[b][1], 0, st.orb[b][2], 0>>]]
                      ELSE shots[s][tt][st.bpm[b].ord]
      fuzzy == \E s \in 1..st.S : ~orb /\ \E tt \in 1..T : Fuzzy(shots[s][tt][Len(Ring) + 1])
      unsure == \E b \in 1..B : st.bpm[b].su # 0 /\ (st.S > 1 \/ st.mode = "PORB" \/ \E tt \in 1..T : ~Sure(at(1, tt, b), st.lost, st.bpm[b].su))
      ss(tt, b) == [s \in 1..st.S |-> One(at(s, tt, b), st.bpm[b].e, st.lost)]
      noise2(b) == MaxOf({st.bpm[b].noise2[1], st.bpm[b].noise2[2]})
      cols == IF st.mode = "PORB" THEN B ELSE T * B
      \* expected [has, n, r] of an output column, the slack noise may add, and what is averaged
      turnmean(b) == [tt \in 1..T |-> Mean(ss(tt, b))]
      RECURSIVE Cnt(_, _)
      Cnt(b, tt) == IF tt = 0 THEN 0 ELSE Cardinality(Has(ss(tt, b))) + Cnt(b, tt - 1)
      bpmOf(c) == ((c - 1) % B) + 1
      turnOf(c) == ((c - 1) \div B) + 1
      exp(c) == IF st.mode = "PORB" THEN Mean(turnmean(bpmOf(c))) ELSE Mean(ss(turnOf(c), bpmOf(c)))
      cnt(c) == IF st.mode = "PORB" THEN Cnt(bpmOf(c), T) ELSE Cardinality(Has(ss(turnOf(c), bpmOf(c))))
      slack(c, d) == IF exp(c).has THEN (cnt(c) * st.bpm[bpmOf(c)].noise2[d] * m) \div exp(c).n ELSE 0
      den == st.S * m * (IF st.mode = "PORB" THEN T ELSE 1)
      su(c) == st.bpm[bpmOf(c)].su
  IN IF st.exc # "" THEN {V("exc", "bpm_reading", "no error", st.exc)}
     ELSE (IF Len(st.x) = cols /\ Len(st.y) = cols /\ Len(st.sx) = cols /\ Len(st.sy) = cols THEN {} ELSE {V("shape", "columns", cols, Len(st.x))})
     \cup (IF st.calls = (IF orb THEN 0 ELSE st.S) THEN {} ELSE {V("post", "calls", st.S, st.calls)})
     \cup IF fuzzy \/ unsure \/ Len(st.x) # cols \/ Len(st.y) # cols THEN {}
     ELSE UNION {
       LET e == exp(c)
           got == <<st.x[c], st.y[c]>>
           single == st.S = 1 /\ (st.mode # "PORB" \/ T = 1)
           num == IsN(st.sx[c]) /\ IsN(st.sy[c])
       IN (IF e.has THEN UNION {IF IsN(got[d]) /\ ABS(got[d] - e.r[d]) <= TOL + slack(c, d) THEN {}
                                ELSE {V(IF got[d] = NAN THEN "dark" ELSE IF single THEN "reading" ELSE "mean", <<c, d>>, e, got)} : d \in 1..2}
           ELSE IF got = <<NAN, NAN>> THEN {} ELSE {V("bright", c, "not a number", got)})
          \cup (IF su(c) = 0
                THEN (IF num /\ ABS(st.sx[c] * den - e.n * 1048576) <= 8 * den /\ st.sx[c] = st.sy[c] THEN {}
                      ELSE {V(IF single THEN "sum" ELSE "meansum", c, e.n, <<st.sx[c], st.sy[c]>>)})
                ELSE (IF num /\ ABS(st.sx[c] * den - e.n * 1048576) <= 8 * den + e.n * su(c) * 16384 THEN {} ELSE {V("sum", c, e.n, st.sx[c])}))
          \cup (IF st.err = <<>> THEN {}
                ELSE LET s1 == ss(turnOf(c), bpmOf(c))
                         S1 == DOMAIN s1
                         all == \A s \in S1 : s1[s].has
                         RECURSIVE Sq(_, _)
                         Sq(S, d) == IF S = {} THEN 0 ELSE LET j == CHOOSE q \in S : TRUE IN
                                        s1[j].n * ((s1[j].r[d] - e.r[d]) \div 256) * ((s1[j].r[d] - e.r[d]) \div 256) + Sq(S \ {j}, d)
                     IN UNION {LET g == st.err[d][c] IN
                          IF ~all THEN (IF g = NAN THEN {} ELSE {V("err", <<c, d>>, "not a number", g)})
                          ELSE IF st.noisy THEN {}
                          ELSE IF g # NAN /\ g < 1048576 /\ ABS((g \div 256) * (g \div 256) * e.n - Sq(S1, d)) <= e.n * (4 * (g \div 256) + 8) THEN {}
                          ELSE {V("err", <<c, d>>, Sq(S1, d), g)} : d \in 1..2})
       : c \in 1..cols}

(* ------------------------------------------------------- positions at elements *)
AllDiffs(st) ==
  LET shots == [s \in 1..st.S |-> Turns(Ring, st.T, Bunch(st.z[s]))]
      fuzzy == \E s \in 1..st.S : \E tt \in 1..st.T : Fuzzy(shots[s][tt][Len(Ring) + 1])
  IN IF st.exc # "" THEN {V("exc", "all_elements_reading", "no error", st.exc)}
     ELSE IF fuzzy THEN {}
     ELSE UNION {LET p == shots[s][tt][k][j]
                     g == st.pos[s][tt][k][j]
                 IN IF (p.on /\ IsN(g[1]) /\ IsN(g[2]) /\ ABS(g[1] - p.v[1]) <= TOL /\ ABS(g[2] - p.v[3]) <= TOL) \/ (~p.on /\ g = <<NAN, NAN>>) THEN {}
                    ELSE {V("position", <<s, tt, k, j>>, p, g)} : s \in 1..st.S, tt \in 1..st.T, k \in 1..(Len(Ring) + 1), j \in 1..st.P}

\* the BPM readings returned with them (shots of the same intensity, so that every mean is the same)
AllReads(st) ==
  LET shots == [s \in 1..st.S |-> Turns(Ring, st.T, Bunch(st.z[s]))]
      fuzzy == \E s \in 1..st.S : \E tt \in 1..st.T : Fuzzy(shots[s][tt][Len(Ring) + 1])
      B == Len(st.bpm)
      ss(c) == [s \in 1..st.S |-> One(shots[s][((c - 1) \div B) + 1][st.bpm[((c - 1) % B) + 1].ord], st.bpm[((c - 1) % B) + 1].e, st.lost)]
      equal(c) == \A a \in 1..st.S : ss(c)[a].n = ss(c)[1].n
  IN IF st.exc # "" \/ fuzzy THEN {}
     ELSE IF Len(st.x) # st.T * B \/ Len(st.y) # st.T * B THEN {V("shape", "columns", st.T * B, <<Len(st.x), Len(st.y)>>)}
     ELSE UNION {LET e == Mean(ss(c))
                     g == <<st.x[c], st.y[c]>>
                 IN IF ~equal(c) \/ (e.has /\ \A d \in 1..2 : IsN(g[d]) /\ ABS(g[d] - e.r[d]) <= TOL) \/ (~e.has /\ g = <<NAN, NAN>>) THEN {}
                    ELSE {V("reading", c, e, g)} : c \in 1..(st.T * B)}

(* ---------------------------------------------------------------- transmission *)
TransDiffs(st) ==
  LET tr == Turns(Ring, st.T, Bunch(st.z[1]))
      n(tt) == Cardinality(Alive(tr[tt][Len(Ring) + 1]))
      good == {tt \in 1..st.T : Over(n(tt), st.P, st.lost)}
  IN IF st.exc # "" THEN {V("exc", "beam_transmission", "no error", st.exc)}
     ELSE (IF st.calls = 1 THEN {} ELSE {V("post", "calls", 1, st.calls)})
     \cup IF Fuzzy(tr[st.T][Len(Ring) + 1]) THEN {}
     ELSE (IF st.turns = Cardinality(good) THEN {} ELSE {V("turns", "maximum turns", Cardinality(good), st.turns)})
     \cup (IF Len(st.frac) # st.T THEN {V("frac", "length", st.T, Len(st.frac))}
           ELSE UNION {IF IsN(st.frac[tt]) /\ ABS(st.frac[tt] * st.P - n(tt) * 1048576) <= 8 * st.P THEN {} ELSE {V("frac", tt, n(tt), st.frac[tt])} : tt \in 1..st.T})

(* ------------------------------------------------------------------- injection *)
\* st.in: generated particles (6 numbers each, 2^-26), st.z0, st.jit2 (twice the jitter), st.ax: three planes [c, s, den, s1, s2]
Proj(ax, u, v) == <<(ax.c * u + ax.s * v) \div ax.den, (ax.c * v - ax.s * u) \div ax.den>>
Dev(st, j, p) == Proj(st.ax[p], st.in[j][2 * p - 1] - st.z0[2 * p - 1], st.in[j][2 * p] - st.z0[2 * p])
Jit(st, p) == LET a == st.ax[p] IN <<(ABS(a.c) * st.jit2[2 * p - 1] + ABS(a.s) * st.jit2[2 * p]) \div a.den, (ABS(a.c) * st.jit2[2 * p] + ABS(a.s) * st.jit2[2 * p - 1]) \div a.den>>
Sig(st, p) == IF st.P = 1 THEN <<0, 0>> ELSE <<st.ax[p].s1, st.ax[p].s2>>
GenDiffs(st) ==
  IF st.exc # "" THEN {V("exc", "generate_bunches", "no error", st.exc)}
  ELSE (IF st.calls = 1 THEN {} ELSE {V("post", "calls", 1, st.calls)})
  \cup (IF st.same THEN {} ELSE {V("post", "result", "what the post-processing returned", "something else")})
  \cup (IF st.P > 1 /\ (\E p \in 1..3 : st.ax[p].s1 # 0 \/ st.ax[p].s2 # 0) /\ st.ndist # st.P THEN {V("spread", "particles", "different", st.ndist)} ELSE {})
  \cup (IF Len(st.in) = st.P THEN {} ELSE {V("number", "particles", st.P, Len(st.in))})
  \cup UNION {UNION {
         (IF ABS(Dev(st, j, p)[d]) <= 3 * Sig(st, p)[d] + Jit(st, p)[d] + ZTOL THEN {} ELSE {V("centre", <<j, p, d>>, 3 * Sig(st, p)[d] + Jit(st, p)[d], Dev(st, j, p))})
         \cup (IF ABS(Dev(st, j, p)[d] - Dev(st, 1, p)[d]) <= 6 * Sig(st, p)[d] + ZTOL THEN {} ELSE {V("common", <<j, p, d>>, 6 * Sig(st, p)[d], <<Dev(st, j, p), Dev(st, 1, p)>>)})
         : j \in 1..Len(st.in)} : p \in 1..3, d \in 1..2}
\* draws of jitter (first particle of bunches without spread) and of spread (bunches without jitter)
NoJit(st) == \A k \in 1..6 : st.jit2[k] = 0
NoSig(st) == st.P = 1 \/ \A p \in 1..3 : st.ax[p].s1 = 0 /\ st.ax[p].s2 = 0
NoiseObs(st) ==
  IF st.op # "read" \/ st.exc # "" \/ ~st.half THEN {}
  ELSE LET B == Len(st.bpm) IN
       {LET c == q[1]
            d == q[2]
            b == ((c - 1) % B) + 1
            e == One(Turns(Ring, 1, Bunch(st.z[1]))[1][st.bpm[b].ord], st.bpm[b].e, st.lost)
            g == IF d = 1 THEN st.x[c] ELSE st.y[c]
        IN [k |-> "noise", c |-> d, big |-> e.has /\ ABS(g - e.r[d]) > st.bpm[b].noise2[d] + TOL, pos |-> g > e.r[d]]
        : q \in {q \in (1..Len(st.x)) \X (1..2) : st.bpm[((q[1] - 1) % B) + 1].noise2[q[2]] > 0}}
Obs(st) ==
  IF st.op = "read" THEN NoiseObs(st) ELSE
  IF st.op # "gen" \/ st.exc # "" THEN {}
  ELSE (IF NoSig(st) THEN {[k |-> "jitter", c |-> c, big |-> 4 * ABS(st.in[1][c] - st.z0[c]) > st.jit2[c], pos |-> st.in[1][c] > st.z0[c]] : c \in {c \in 1..6 : st.jit2[c] > 0}} ELSE {})
  \cup (IF NoJit(st) THEN UNION {{[k |-> "spread", c |-> 2 * p - 2 + d, big |-> 2 * ABS(Dev(st, j, p)[d]) > Sig(st, p)[d], pos |-> Dev(st, j, p)[d] > 0]
                                 : j \in {j \in 1..Len(st.in) : Sig(st, p)[d] > 0}} : p \in 1..3, d \in 1..2} ELSE {})
NObs(st) ==
  IF st.op = "read" /\ st.half THEN [jitter |-> 0, spread |-> 0, noise |-> 6] ELSE
  IF st.op # "gen" \/ st.exc # "" THEN [jitter |-> 0, spread |-> 0, noise |-> 0]
  ELSE [noise |-> 0, jitter |-> IF NoSig(st) /\ \E c \in 1..6 : st.jit2[c] > 0 THEN 1 ELSE 0, spread |-> IF NoJit(st) /\ ~NoSig(st) THEN st.P ELSE 0]
SpreadDiffs(sp) ==
  UNION {LET O == {o \in sp.obs : o.k = k} IN
         IF sp.n[k] < 24 \/ (k = "noise" /\ sp.n[k] < 150) \/ O = {} \/ ({o.pos : o \in O} = {TRUE, FALSE} /\ \E o \in O : o.big) THEN {} ELSE {V("spread", k, "values of both signs up to the limit", O)}
         : k \in {"jitter", "spread", "noise"}}

ModeDiffs(st) ==
  LET ok == st.want \in {"TBT", "PORB", "ORB"} IN
  IF ~ok THEN (IF st.exc # "" /\ st.after = st.before THEN {} ELSE {V("mode", st.want, "an error", <<st.exc, st.after>>)})
  ELSE IF st.exc = "" /\ st.after = [st.before EXCEPT !.mode = st.want, !.T = IF st.want = "ORB" THEN 1 ELSE @, !.P = IF st.want = "ORB" THEN 1 ELSE @] THEN {}
       ELSE {V("mode", st.want, st.before, <<st.exc, st.after>>)}
BadDiffs(st) == IF st.exc = "ValueError" THEN {} ELSE {V("badbpm", "no registered BPM requested", "ValueError", st.exc)}
\* noise of distinct readings (planes, BPMs, turns, repetitions) is drawn separately; distinct shots differ
IndepDiffs(st) ==
  IF st.exc # "" THEN {V("exc", "bpm_reading", "no error", st.exc)}
  ELSE (IF Cardinality({st.u[k] : k \in DOMAIN st.u}) = Len(st.u) THEN {} ELSE {V("indep", "noise", "its own in every reading", st.u)})
       \cup (IF \A k \in DOMAIN st.err : st.err[k] # 0 THEN {} ELSE {V("indep", "noise", "its own in every shot", st.err)})
Diffs(st) == CASE st.op = "read" -> ReadDiffs(st)
               [] st.op = "indep" -> IndepDiffs(st)
               [] st.op = "allel" -> AllDiffs(st) \cup AllReads(st)
               [] st.op = "trans" -> TransDiffs(st)
               [] st.op = "gen" -> GenDiffs(st)
               [] st.op = "mode" -> ModeDiffs(st)
               [] st.op = "bad" -> BadDiffs(st)
               [] OTHER -> {}
Init == t \in 1..Len(Traces) /\ i = 0 /\ mode = "TBT" /\ spread = [obs |-> {}, n |-> [jitter |-> 0, spread |-> 0, noise |-> 0]]
Next ==
  /\ i < Len(Traces[t].steps)
  /\ LET st == Traces[t].steps[i + 1] IN
     /\ spread' = [obs |-> spread.obs \cup Obs(st), n |-> [k \in {"jitter", "spread", "noise"} |-> spread.n[k] + NObs(st)[k]]]
     /\ \A v \in Diffs(st) \cup (IF i + 1 = Len(Traces[t].steps) THEN SpreadDiffs(spread') ELSE {}) :
          PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ v))
     /\ mode' = IF st.op = "mode" /\ st.exc = "" THEN st.want ELSE mode
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
