----------------------------- MODULE ModelTrace -----------------------------
(* Decides recorded model lattices, model responses and measured responses *)
EXTENDS Model, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, held, moved
vars == <<t, i, held, moved>>
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Ring(st) == IF st.ideal THEN Traces[t].design ELSE st.ring
NearR(a, b) == b < 1000000000 /\ ABS(a - b) <= 40 + ABS(a) \div 1500
Same(st) == IF st.oth THEN {} ELSE {V("other", st.what, "unchanged", st.what)}
Cm(st, c) == IF c <= Len(st.cmh) THEN <<st.cmh[c], 1>> ELSE <<st.cmv[c - Len(st.cmh)], 2>>
NC(st) == Len(st.cmh) + Len(st.cmv)

RmDiffs(st) == Same(st) \cup
  IF st.exc # "" THEN {V("exc", "SCgetModelRM", "", st.exc)}
  ELSE IF Len(st.RM) # NC(st) THEN {V("shape", "columns", NC(st), Len(st.RM))}
  ELSE UNION {LET e == Column(Ring(st), st.bord, st.T, Cm(st, c)[1], Cm(st, c)[2])
              IN IF Len(st.RM[c]) # Len(e) THEN {V("shape", c, Len(e), Len(st.RM[c]))}
                 ELSE {V("rm", <<c, r>>, e[r], st.RM[c][r]) : r \in {r \in DOMAIN e : ~NearR(e[r], st.RM[c][r])}} : c \in 1..NC(st)}
\* readings (2^-26) before and after a kick of st.m / 2^10
PredDiffs(st) == Same(st) \cup
  IF st.exc # "" THEN {V("exc", "kick", "", st.exc)}
  ELSE LET e == Column(st.ring, st.bord, st.T, st.cm, st.plane)
       IN IF Len(st.d) # Len(e) THEN {V("shape", "reading", Len(e), Len(st.d))}
          ELSE {V("pred", r, st.m * e[r], st.d[r]) : r \in {r \in DOMAIN e : ~NearR(st.m * e[r], st.d[r])}}
\* a matrix column against the readings it predicts (closed orbits): both in the same unit, scaled to the largest entry
OrbDiffs(st) == Same(st) \cup
  IF st.exc # "" THEN {V("exc", "orbit", "", st.exc)}
  ELSE IF Len(st.d) # Len(st.e) THEN {V("shape", "orbit", Len(st.e), Len(st.d))}
  ELSE {V(st.what2, r, st.e[r], st.d[r]) : r \in {r \in DOMAIN st.e : ABS(st.e[r] - st.d[r]) > st.big \div 50 + 30}}
BadDiffs(st) == Same(st) \cup IF st.exc # "" THEN {} ELSE {V("noraise", st.what2, "an error", "none")}

\* model lattice
ElDiffs(st, k) ==
  LET d == st.des[k]
      m == st.mac[k]
      g == st.got[k]
      e == [PA |-> IF m.hsp THEN ModelPoly(m.SA) ELSE d.PA, PB |-> IF m.hsp THEN ModelPoly(m.SB) ELSE d.PB,
            V |-> IF m.isrf THEN m.VS ELSE d.V, F |-> IF m.isrf THEN m.FS ELSE d.F, P |-> IF m.isrf THEN m.PS ELSE d.P,
            ea |-> IF st.ap /\ m.ea # "-" THEN m.ea ELSE d.ea, ra |-> IF st.ap /\ m.ra # "-" THEN m.ra ELSE d.ra, rest |-> d.rest]
      top == LET nz == {n \in DOMAIN g.PA : g.PA[n] # 0} \cup {n \in DOMAIN g.PB : g.PB[n] # 0} IN IF nz = {} THEN 0 ELSE (CHOOSE n \in nz : \A m2 \in nz : m2 <= n) - 1
  IN {V("model", <<k, f>>, e[f], g[f]) : f \in {f \in DOMAIN e : e[f] # g[f]}}
     \cup (IF IF m.hsp THEN g.mo >= top /\ g.mo < Len(g.PB) ELSE g.mo = d.mo THEN {} ELSE {V("model", <<k, "MaxOrder">>, top, g.mo)})
RingDiffs(st) == Same(st) \cup
  IF st.exc # "" THEN {V("exc", "SCgetModelRING", "", st.exc)}
  ELSE IF Len(st.got) # Len(st.des) THEN {V("shape", "elements", Len(st.des), Len(st.got))}
  ELSE UNION {ElDiffs(st, k) : k \in DOMAIN st.des}
\* changing the model afterwards must not reach the machine or the design
AloofDiffs(st) == Same(st)

(* ------------------------------------------------------------ measurements *)
\* while a response is measured: at most one corrector is away from where it was, and it is one of those asked for
ExcDiffs(st) ==
  LET away == {j \in DOMAIN st.sp : st.sp[j] # held[j]}
  IN Same(st)
     \cup (IF Cardinality(away) <= 1 THEN {} ELSE {V("excite", away, held, st.sp)})
     \cup {V("limit", j, st.lim[j], st.sp[j]) : j \in {j \in away : st.lim[j] > 0 /\ ABS(st.sp[j]) > st.lim[j] + 2}}
CavDiffs(st) == Same(st) \cup (IF \A a, b \in DOMAIN st.f : ABS(st.f[a] - st.f[b]) <= 2 THEN {} ELSE {V("excite", "cavities move together", st.f, st.f)})
MeasDiffs(st) == Same(st)
  \cup (IF st.sp = held THEN {} ELSE {V("restore", "setpoints", held, st.sp)})
  \cup (IF st.exc # "" THEN (IF st.mayfail THEN {} ELSE {V("exc", "response_matrix", "", st.exc)})
        ELSE IF Len(st.RM) # NC(st) THEN {V("shape", "columns", NC(st), Len(st.RM))}
        ELSE UNION {LET e == Column(st.ring, st.bord, st.T, Cm(st, c)[1], Cm(st, c)[2])
              IN IF Len(st.RM[c]) # Len(e) THEN {V("shape", c, Len(e), Len(st.RM[c]))}
                 ELSE {V("meas", <<c, r>>, e[r], st.RM[c][r]) : r \in {r \in DOMAIN e : ~(NearR(e[r], st.RM[c][r]) \/ (st.dark[r] /\ st.RM[c][r] = 0))}} : c \in 1..NC(st)})
Largest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* the reported steps are the ones seen at the injections; a fixed offset is reached unless the corrector's limit forbids it
StepDiffs(st) ==
  IF st.exc # "" THEN {}
  ELSE IF Len(st.steps) # NC(st) THEN {V("steps", "columns", NC(st), Len(st.steps))}
  ELSE UNION {LET e == Column(st.ring, st.bord, st.T, Cm(st, c)[1], Cm(st, c)[2])
                  top == Largest({ABS(e[r]) : r \in {r \in DOMAIN e : ~st.dark[r]}})
                  want == IF top < 16384 THEN 0 ELSE (st.amp * 8192) \div (top \div 8)
                  free == top >= 16384 /\ \A s \in {-1, 1} : ABS(held[c] + s * want) + 2 <= st.lim[c]
                  S == st.steps[c]
              IN (IF Len(S) # st.n THEN {V("steps", <<c, "number">>, st.n, Len(S))} ELSE {})
                 \cup {V("steps", <<c, n>>, moved[c], S[n]) : n \in {n \in DOMAIN S : S[n] # 0 /\ ~\E x \in moved[c] : ABS(x - S[n]) <= 2}}
                 \cup (IF st.mode = "fixedOffset" /\ free /\ ~ABS(ABS(S[Len(S)]) - want) <= 3 + want \div 500 THEN {V("steps", <<c, "offset">>, want, S[Len(S)])} ELSE {})
              : c \in 1..NC(st)}
\* the injected position follows the frequency: z per st.df
DispDiffs(st) == Same(st)
  \cup (IF \A a \in DOMAIN st.f : ABS(st.f[a]) <= 0 THEN {} ELSE {V("restore", "frequency", 0, st.f)})
  \cup (IF st.exc # "" THEN {V("exc", "dispersion", "", st.exc)}
        ELSE LET e == FromInj(st.ring, st.bord, st.T, st.z)
             IN IF Len(st.eta) # Len(e) THEN {V("shape", "dispersion", Len(e), Len(st.eta))}
                ELSE {V("disp", r, e[r], st.eta[r]) : r \in {r \in DOMAIN e : ABS(e[r] - st.eta[r]) > 40 + ABS(e[r]) \div 1500}})
Diffs(st) == CASE st.op = "rm" -> RmDiffs(st) [] st.op = "pred" -> PredDiffs(st) [] st.op = "orb" -> OrbDiffs(st) [] st.op = "bad" -> BadDiffs(st)
               [] st.op = "ring" -> RingDiffs(st) [] st.op = "aloof" -> AloofDiffs(st) [] st.op = "exc" -> ExcDiffs(st) [] st.op = "cav" -> CavDiffs(st)
               [] st.op = "meas" -> MeasDiffs(st) \cup StepDiffs(st) [] st.op = "disp" -> DispDiffs(st) [] st.op = "keep" -> Same(st) [] OTHER -> {}
Init == t \in 1..Len(Traces) /\ i = 0 /\ held = <<>> /\ moved = <<>>
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN /\ \A d \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
        /\ held' = IF st.op = "hold" THEN st.sp ELSE held
        /\ moved' = CASE st.op = "hold" -> [c \in DOMAIN st.sp |-> {}]
                     [] st.op = "exc" -> [c \in DOMAIN st.sp |-> IF st.sp[c] = held[c] THEN moved[c] ELSE moved[c] \cup {st.sp[c] - held[c]}]
                     [] OTHER -> moved
Spec == Init /\ [][Next]_vars
=============================================================================
