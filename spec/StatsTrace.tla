------------------------------ MODULE StatsTrace ------------------------------
(* Decides recorded calls of the weighted statistics *)
EXTENDS Stats, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i
vars == <<t, i>>
NAN == 1777777777
V(kind, key, exp, got) == [kind |-> kind, key |-> ToString(key), exp |-> ToString(exp), got |-> ToString(got)]
Same(st) == IF st.oth THEN {} ELSE {V("args", st.f, "unchanged", "")}
\* judge every group of a call by ok(given cells, returned value); a group without any value gives none
Each(st, name, ok(_, _), want(_)) ==
  LET gs == Groups(st) IN
  IF st.exc # "" THEN {V("exc", st.f, "", st.exc)}
  ELSE IF Len(st.ret) # Len(gs) THEN {V("shape", st.f, Len(gs), Len(st.ret))}
  ELSE {V(name, <<st.f, g>>, want(Given(st, gs[g])), st.ret[g]) : g \in {g \in DOMAIN gs :
          IF Given(st, gs[g]) = {} THEN st.ret[g] # NAN ELSE st.ret[g] = NAN \/ ~ok(Given(st, gs[g]), st.ret[g])}}
Mean(st, S, r) == Near(r * SumW(st, S), 4096 * SumWD(st, S), SumW(st, S) + 1)
Rms(st, S, r) == Near(r * SumW(st, S), 4096 * SumWDD(st, S), SumW(st, S) + 1)
Err(st, S, r) == Near(r * ErrDen(st, S), 256 * ErrNum(st, S), ErrDen(st, S) + 1 + (IF st.circ THEN ABS(r * ErrDen(st, S)) \div 1000 ELSE 0))
Ess(st, S, r) == IF Many(st, S) THEN Near(r * SumWW(st, S), 4096 * SumW(st, S) * SumW(st, S), SumWW(st, S) + 1) ELSE r = 8192
TFac(st, S, r) == Near(r, TValues[IF Cardinality(S) < 2 THEN 1 ELSE Cardinality(S) - 1], 2)
\* values mirrored about c
Mirror(st, S, r) == (r - 4096 * st.c + 2) % (4096 * st.P) <= 4 /\ ABS(r) <= 2048 * st.P + 2
Bound(st, S, r) == 0 <= r /\ 10 * (r \div 4096) <= 3 * st.P
Diffs(st) == Same(st) \cup
  CASE st.op = "mean" -> Each(st, "mean", LAMBDA S, r : Mean(st, S, r), LAMBDA S : <<4096 * SumWD(st, S), SumW(st, S)>>)
    [] st.op = "rms" -> Each(st, "rms", LAMBDA S, r : Rms(st, S, r), LAMBDA S : <<4096 * SumWDD(st, S), SumW(st, S)>>)
    [] st.op = "err" -> Each(st, "err", LAMBDA S, r : Err(st, S, r), LAMBDA S : <<256 * ErrNum(st, S), ErrDen(st, S)>>)
    [] st.op = "ess" -> Each(st, "ess", LAMBDA S, r : Ess(st, S, r), LAMBDA S : <<4096 * SumW(st, S) * SumW(st, S), SumWW(st, S)>>)
    [] st.op = "tfac" -> Each(st, "tfac", LAMBDA S, r : TFac(st, S, r), LAMBDA S : Cardinality(S))
    [] st.op = "mirror" -> Each(st, "circular", LAMBDA S, r : Mirror(st, S, r), LAMBDA S : <<4096 * st.c, st.P>>)
    [] st.op = "bound" -> Each(st, "bound", LAMBDA S, r : Bound(st, S, r), LAMBDA S : st.P)
Init == t \in 1..Len(Traces) /\ i = 0
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN \A d \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ d))
Spec == Init /\ [][Next]_vars
=============================================================================
