------------------------------ MODULE FitTrace ------------------------------
(* Decides recorded fits *)
EXTENDS Fit, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i
vars == <<t, i>>
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Same(st) == IF st.oth THEN {} ELSE {V("other", st.what, "unchanged", st.what)}
Is(name, key, e, g) == IF e = g THEN {} ELSE {V(name, key, e, g)}

ChromaDiffs(st) == Same(st) \cup Is("exc", st.op, "", st.exc) \cup
  IF st.bad THEN Is("setpoints", "invalid target", st.sp0, st.sp)
  ELSE {V("setpoints", f, st.sp0[f], st.sp[f]) : f \in {f \in 1..2 : ~Common(st.sp0[f], st.sp[f])}}
       \cup {V(st.op, p, st.target[p], st.got[p]) : p \in {p \in 1..2 : ~Near(st.target[p], st.got[p], st.tol)}}

\* injection: what was injected is z0 + e
InjDiffs(st) ==
  LET z == [k \in 1..4 |-> st.z0[k] + st.e[k]]
      seen == IF st.drift THEN AtEnd(z, st.kicks, st.s) ELSE z
      tol == 3
  IN Same(st) \cup (IF st.tail THEN {} ELSE {V("other", "longitudinal", "unchanged", "")}) \cup
     IF st.blind THEN (IF st.exc = "" THEN {V("exc", "no reading", "an error", st.ret)} ELSE {}) \cup Is("applied", "no reading", st.z0, st.z)
     ELSE IF st.model THEN Is("exc", "injection", "", st.exc) \cup       \* what the design line does with the fitted beam
          (IF st.exc # "" THEN {} ELSE {V("fit", k, st.seen[k], st.pred[k]) : k \in {k \in DOMAIN st.seen : ~Near(st.seen[k], st.pred[k], tol)}}
             \cup {V("applied", k, st.z0[k] + st.ret[k], st.z[k]) : k \in {k \in 1..4 : ~Near(st.z0[k] + st.ret[k], st.z[k], 1)}})
     ELSE Is("exc", "injection", "", st.exc) \cup
          IF st.exc # "" THEN {}
          ELSE {V("fit", k, -seen[k], st.ret[k]) : k \in {k \in 1..4 : ~Near(-seen[k], st.ret[k], tol)}} \cup Is("fit", "longitudinal", <<0, 0>>, <<st.ret[5], st.ret[6]>>)
               \cup (IF st.drift THEN Is("applied", "drift", st.z0, st.z)
                     ELSE {V("applied", k, st.z0[k] - seen[k], st.z[k]) : k \in {k \in 1..4 : ~Near(st.z0[k] + st.ret[k], st.z[k], 1)}}
                          \cup {V("reading", k, 0, st.read[k]) : k \in {k \in DOMAIN st.read : ~Near(0, st.read[k], tol)}})

JacDiffs(st) ==
  LET M == DOMAIN st.C  N == DOMAIN st.C[1]
      Want(p, m, c) == IF p <= st.nq THEN st.E[p][m][c]
                       ELSE IF p <= st.nq + Len(st.C[1]) THEN (IF c = p - st.nq THEN st.C[m][c] ELSE 0)
                       ELSE IF m = p - st.nq - Len(st.C[1]) THEN st.C[m][c] ELSE 0
      Tol(p) == IF p <= st.nq THEN st.tol ELSE 0
      size == IF st.full THEN st.nq + Len(st.C) + Len(st.C[1]) ELSE st.nq
      P == DOMAIN st.J
  IN Same(st) \cup Is("exc", "jacobian", "", st.exc) \cup
     IF st.exc # "" THEN {}
     ELSE IF Len(st.J) # size THEN {V("jacobian", "parameters", size, Len(st.J))}
     ELSE {V("jacobian", p, [m \in DOMAIN st.J[p] |-> [c \in DOMAIN st.J[p][m] |-> Want(p, m, c)]], st.J[p]) : p \in
             {p \in P : Len(st.J[p]) # Len(st.C) \/ Len(st.J[p][1]) # Len(st.E[1][1])
                        \/ \E m \in DOMAIN st.J[p] : \E c \in DOMAIN st.J[p][m] : ~Near(Want(p, m, c), st.J[p][m][c], Tol(p))}}

RECURSIVE Pick(_, _)
Pick(p, on) == IF p = <<>> THEN <<>> ELSE (IF Head(on) THEN <<Head(p)>> ELSE <<>>) \o Pick(Tail(p), Tail(on))
\* the weighted least squares solution (parameters in 1/2^16, data in 1/8)
RECURSIVE DotW(_, _, _)
DotW(a, b, w) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) * Head(w) + DotW(Tail(a), Tail(b), Tail(w))
RowSum(m) == [k \in DOMAIN m |-> Sum(m[k])]
RECURSIVE Flat(_)
Flat(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o Flat(Tail(m))
Vec(st, m) == IF st.ng THEN RowSum(m) ELSE Flat(m)
Weights(st) == IF st.ng THEN st.w ELSE [k \in 1..(Len(st.D) * Len(st.D[1])) |-> st.w[(k - 1) \div Len(st.D[1]) + 1]]
NormalDiffs(st) ==
  LET P == DOMAIN st.J
      w == Weights(st)
      v == [p \in P |-> Vec(st, st.J[p])]
      H == [a \in P |-> [b \in P |-> DotW(v[a], v[b], w)]]
      d == Vec(st, st.D)
      Left(a) == 8 * Sum([b \in P |-> H[a][b] * (st.ret[b] \div 8)]) + Sum([b \in P |-> H[a][b] * (st.ret[b] % 8)]) + (st.lam * H[a][a] * (st.ret[a] \div 8))
      Right(a) == DotW(v[a], d, w) * 8192
      tol(a) == Sum([b \in P |-> ABS(H[a][b])]) + st.lam * H[a][a] + 64
  IN IF Len(st.ret) # Len(st.J) THEN {V("fit", "number", Len(st.J), Len(st.ret))}
     ELSE {V("fit", a, Right(a), Left(a)) : a \in {a \in P : ~Near(Left(a), Right(a), tol(a))}}
LmDiffs(st) ==
  LET want == Pick(st.p, st.on)
  IN Same(st) \cup Is("exc", "fit", "", st.exc) \cup
     IF st.exc # "" THEN {}
     ELSE IF st.noisy THEN NormalDiffs(st)
     ELSE IF Len(st.ret) # Len(want) THEN {V("fit", "number", Len(want), Len(st.ret))}
     ELSE {V("fit", k, want[k] * 8192, st.ret[k]) : k \in {k \in DOMAIN want : ~Near(want[k] * 8192, st.ret[k], 8)}}
CutDiffs(st) ==
  LET want == [k \in DOMAIN st.p |-> IF Larger(st.size, k) < st.keep THEN 8192 * st.p[k] ELSE 0]
  IN Same(st) \cup Is("exc", "fit", "", st.exc) \cup
     IF st.exc # "" THEN {}
     ELSE IF Len(st.ret) # Len(want) THEN {V("fit", "number", Len(want), Len(st.ret))}
     ELSE {V("fit", k, want[k], st.ret[k]) : k \in {k \in DOMAIN want : ~Near(want[k], st.ret[k], 8)}}
\* relative deviation (in 1/4096) of the beta function (in 2^-14 m)
Dev(m, b) == IF b >= m THEN (4096 * (b - m)) \div m ELSE -((4096 * (m - b)) \div m)
BeatDiffs(st) == Same(st) \cup Is("exc", "beat", "", st.exc) \cup
  IF st.exc # "" THEN {}
  ELSE IF Len(st.ret) # 2 THEN {V("beat", "planes", 2, Len(st.ret))}
  ELSE UNION {LET n == Len(st.m[p])
                  d == [k \in 1..n |-> Dev(st.m[p][k], st.b[p][k])]
                  s == Sum([k \in 1..n |-> d[k] * d[k]])
              IN IF Near(n * st.ret[p] * st.ret[p], s, 4 * Sum([k \in 1..n |-> ABS(d[k]) + 1]) + 4 * n * (st.ret[p] + 2)) THEN {} ELSE {V("beat", p, s, n * st.ret[p] * st.ret[p])} : p \in 1..2}
SetDiffs(st) == Same(st) \cup Is("exc", "set", "", st.exc)
  \cup {V("setpoints", g, [k \in DOMAIN st.sp0[g] |-> st.sp0[g][k] - st.r[g]], st.sp[g]) : g \in {g \in DOMAIN st.r : \E k \in DOMAIN st.sp0[g] : st.sp[g][k] # st.sp0[g][k] - st.r[g]}}
  \cup {V("corrector", g, [k \in DOMAIN st.cm0[g] |-> st.cm0[g][k] + st.gain[g][k] * st.r[g]], st.cm[g]) : g \in {g \in DOMAIN st.r : \E k \in DOMAIN st.cm0[g] : st.cm[g][k] # st.cm0[g][k] + st.gain[g][k] * st.r[g]}}

CircDiffs(st) == Same(st) \cup
  IF st.bad THEN Is("exc", "unknown mode", "ValueError", st.exc) \cup {V("length", k, st.old[k], st.new[k]) : k \in {k \in DOMAIN st.old : st.new[k] # 64 * st.old[k]}}
  ELSE Is("exc", "circumference", "", st.exc) \cup
       \* new / old = (D + goal - C) / D for drifts (goal and the sum in 1/1024)
       {V("length", k, <<st.old[k], st.dr[k]>>, st.new[k]) : k \in {k \in DOMAIN st.old :
          IF st.dr[k] THEN ~Near(st.new[k] * st.D, 4 * st.old[k] * (16 * st.D + st.goal - 16 * st.C), st.D + 1) ELSE st.new[k] # 64 * st.old[k]}}
       \cup (IF Near(Sum(st.new), 4 * st.goal, Len(st.new)) THEN {} ELSE {V("length", "total", 4 * st.goal, Sum(st.new))})

PinvDiffs(st) == Same(st) \cup Is("exc", "pinv", "", st.exc) \cup
  IF st.exc # "" THEN {}
  ELSE IF Len(st.ret) # Len(st.v) \/ Len(st.ret[1]) # Len(st.u) THEN {V("pinv", "shape", <<Len(st.v), Len(st.u)>>, <<Len(st.ret), Len(st.ret[1])>>)}
  ELSE {V("pinv", x, PinvAt(st, x[1], x[2]), st.ret[x[1]][x[2]]) : x \in {x \in (DOMAIN st.v) \X (DOMAIN st.u) : ~Near(PinvAt(st, x[1], x[2]), st.ret[x[1]][x[2]], 4)}}

Diffs(st) == CASE st.op \in {"chroma", "tune"} -> ChromaDiffs(st) [] st.op = "inj" -> InjDiffs(st) [] st.op = "jac" -> JacDiffs(st) [] st.op = "lm" -> LmDiffs(st) [] st.op = "cut" -> CutDiffs(st)
               [] st.op = "beat" -> BeatDiffs(st) [] st.op = "set" -> SetDiffs(st) [] st.op = "circ" -> CircDiffs(st) [] st.op = "pinv" -> PinvDiffs(st)
Init == t \in 1..Len(Traces) /\ i = 0
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN \A d \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
Spec == Init /\ [][Next]_vars
=============================================================================
