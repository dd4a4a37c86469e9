------------------------------ MODULE ArgsTrace ------------------------------
(* Decides recorded calls: arg[k] names the k-th watched object (function and  *)
(* parameter it was handed to), b[k] and a[k] are digests of its content       *)
(* before and after the call                                                   *)
EXTENDS Args, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i
vars == <<t, i, mem>>
View(st, c) == [k \in DOMAIN st.arg |-> c[k]]
Init == t \in 1..Len(Traces) /\ i = 0 /\ mem = <<>>
Next ==
  /\ i < Len(Traces[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ LET st == Traces[t].steps[i + 1]
     IN /\ mem' = View(st, st.a)
        /\ \A k \in Touched(View(st, st.b), View(st, st.a)) :
             PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.f, kind |-> "args", key |-> st.arg[k], exp |-> "unchanged", got |-> "changed"]))
Spec == Init /\ [][Next]_vars
=============================================================================
