------------------------------ MODULE ScanTrace ------------------------------
(* Decides recorded scans: every injection during the scan is a step *)
EXTENDS Scan, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, par, hist
vars == <<t, i, par, hist>>
NANV == 1777777777
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Same(st) == IF st.oth THEN {} ELSE {V("other", st.what, "unchanged", st.what)}
All(s, v) == \A k \in DOMAIN s : s[k] = v

(* --------------------------------------------------------------- tune scan *)
At2(p, k) == {<<p.f[1][a], p.f[2][b]>> : a \in Spot(Len(p.f[1]), k, p.n, 1), b \in Spot(Len(p.f[2]), k, p.n, 2)}
TinjDiffs(st) == Same(st)
  \cup (IF Len(hist) < par.n THEN {} ELSE {V("tries", "number", par.n, Len(hist) + 1)})
  \cup (IF Stops(hist, par.full, par.target) THEN {V("tries", "target reached", "no further try", st.fac)} ELSE {})
  \cup (IF \E f \in At2(par, Len(hist)) : All(st.fac[1], f[1]) /\ All(st.fac[2], f[2]) THEN {}
        ELSE {V("try", Len(hist) + 1, At2(par, Len(hist)), st.fac)})
  \cup (IF Len(st.lost) = par.P THEN {} ELSE {V("try", "particles", par.P, Len(st.lost))})
\* what the scan returns about the point tried k-th
Pos(s, v) == CHOOSE a \in DOMAIN s : s[a] = v
Cell(k) == <<Pos(par.f[1], hist[k].f[1]), Pos(par.f[2], hist[k].f[2])>>
OnGrid == \A k \in DOMAIN hist : (\E a \in DOMAIN par.f[1] : par.f[1][a] = hist[k].f[1]) /\ (\E b \in DOMAIN par.f[2] : par.f[2][b] = hist[k].f[2])
MapDiffs(st) ==
  IF ~OnGrid THEN {} ELSE
  LET cells == {Cell(k) : k \in DOMAIN hist}
  IN UNION {LET c == Cell(k)
            IN (IF st.mt[c[1]][c[2]] = hist[k].turns THEN {} ELSE {V("map", <<"turns", c>>, hist[k].turns, st.mt[c[1]][c[2]])})
               \cup (IF st.tr[c[1]][c[2]] = hist[k].all THEN {} ELSE {V("map", <<"transmission", c>>, hist[k].all, st.tr[c[1]][c[2]])}) : k \in DOMAIN hist}
     \cup {V("map", <<"untried", a>>, NANV, st.mt[a]) : a \in {a \in DOMAIN par.f[1] : \E b \in DOMAIN par.f[2] : <<a, b>> \notin cells /\ st.mt[a][b] # NANV}}
TendDiffs(st) == Same(st) \cup
  IF Len(hist) = 0 THEN {V("tries", "number", par.n, 0)}
  ELSE IF ~(Stops(hist, par.full, par.target) \/ Len(hist) = par.n) THEN {V("tries", "number", par.n, Len(hist))}
  ELSE IF Nothing(hist) \/ (Murky(hist) /\ st.exc # "" /\ ~Stops(hist, par.full, par.target))
       THEN (IF st.exc = "RuntimeError" THEN {} ELSE {V("exc", "no transmission", "RuntimeError", st.exc)})
            \cup (IF All(st.fac[1], 64) /\ All(st.fac[2], 64) THEN {} ELSE {V("final", "nominal", 64, st.fac)})
  ELSE IF st.exc # "" THEN {V("exc", "tune_scan", "", st.exc)}
  ELSE LET ok == IF Stops(hist, par.full, par.target) THEN {Len(hist)} ELSE BestOf(hist)
       IN (IF \E k \in ok : st.ret = hist[k].f THEN {} ELSE {V("final", "factors", {hist[k].f : k \in ok}, st.ret)})
          \cup (IF All(st.fac[1], st.ret[1]) /\ All(st.fac[2], st.ret[2]) THEN {} ELSE {V("final", "setpoints", st.ret, st.fac)})
          \cup MapDiffs(st)

(* ----------------------------------------------------------------- RF scan *)
\* hist: usable turns of every scan point so far (one entry per injection)
NearV(a, b) == ABS(a - b) <= 1
RinjDiffs(st) ==
  LET k == Len(hist) \div par.S + 1
  IN Same(st)
     \cup (IF k <= par.n THEN {} ELSE {V("tries", "number", par.n * par.S, Len(hist) + 1)})
     \cup (IF \A c \in DOMAIN st.v : NearV(st.v[c], Step(par.lo, par.hi, par.n, k)) THEN {} ELSE {V("try", k, Step(par.lo, par.hi, par.n, k), st.v)})
Points == [k \in 1..(Len(hist) \div par.S) |-> hist[(k - 1) * par.S + 1]]
Back(st) == IF \A c \in DOMAIN st.v : NearV(st.v[c], 0) THEN {} ELSE {V("final", "unchanged", 0, st.v)}
\* the correction is common to the cavities; phases count modulo the wavelength
Hits(v, e) == IF par.mod = 0 THEN ABS(v - e) <= par.tol ELSE LET d == (v - e) % par.mod IN d <= par.tol \/ par.mod - d <= par.tol
RendDiffs(st) == Same(st) \cup
  IF par.bad # "" THEN (IF st.exc = "ValueError" THEN {} ELSE {V("exc", par.bad, "ValueError", st.exc)})
                        \cup (IF hist = <<>> THEN {} ELSE {V("tries", par.bad, 0, Len(hist))}) \cup Back(st)
  ELSE IF Len(hist) # par.n * par.S THEN {V("tries", "number", par.n * par.S, Len(hist))}
  ELSE IF Usable(Points) < par.min \/ par.kind = "nozero"
       THEN (IF st.exc = "RuntimeError" THEN {} ELSE {V("exc", "unusable scan", "RuntimeError", st.exc)}) \cup Back(st)
  ELSE IF st.exc # "" THEN {V("exc", "rf", "", st.exc)}
  ELSE IF par.kind = "vague" THEN Back(st)
  ELSE {V("final", c, par.root, st.v[c]) : c \in {c \in DOMAIN st.v : ~Hits(st.v[c], par.root) \/ (par.mod > 0 /\ 2 * ABS(st.v[c]) > par.mod + 2 * par.tol)}}
       \cup (IF \A a, b \in DOMAIN st.v : NearV(st.v[a], st.v[b]) THEN {} ELSE {V("final", "common correction", st.v[1], st.v)})

\* the longitudinal distance of the injected from the closed orbit: degrees (1/16) within half a turn, and relative energy
StaticDiffs(st) == Same(st) \cup
  IF st.exc # "" THEN {V("exc", "phase_and_energy_error", "", st.exc)}
  ELSE LET d == (st.z * 5760 - st.ret[1] * st.lam) % (5760 * st.lam)  slack == 3 * 5760 + 2 * st.lam
       IN (IF (d <= slack \/ 5760 * st.lam - d <= slack) /\ ABS(st.ret[1]) <= 2880 + 2 THEN {} ELSE {V("final", "phase error", <<st.z, st.lam>>, st.ret[1])})
          \cup (IF ABS(st.ret[2] - st.e) <= 4 THEN {} ELSE {V("final", "energy error", st.e, st.ret[2])})

Diffs(st) == CASE st.op = "static" -> StaticDiffs(st) [] st.op = "tinj" -> TinjDiffs(st) [] st.op = "tend" -> TendDiffs(st)
               [] st.op = "rinj" -> RinjDiffs(st) [] st.op = "rend" -> RendDiffs(st) [] OTHER -> {}
Tried(st) == [f |-> <<st.fac[1][1], st.fac[2][1]>>, turns |-> TurnsOf(st.lost, par.T, par.limit), frac |-> After(st.lost, par.T),
              all |-> [tt \in 1..par.T |-> After(st.lost, tt)]]
Init == t \in 1..Len(Traces) /\ i = 0 /\ par = <<>> /\ hist = <<>>
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN /\ \A d \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
        /\ par' = IF st.op \in {"tstart", "rstart"} THEN st ELSE par
        /\ hist' = CASE st.op \in {"tstart", "rstart"} -> <<>> [] st.op = "tinj" -> Append(hist, Tried(st)) [] st.op = "rinj" -> Append(hist, st.turns) [] OTHER -> hist
Spec == Init /\ [][Next]_vars
=============================================================================
