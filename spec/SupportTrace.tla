---------------------------- MODULE SupportTrace ----------------------------
(* Decides recorded support evaluations *)
EXTENDS Support, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, pos, str, obs
vars == <<t, i, pos, str, obs>>
V(kind, el, exp, got) == [kind |-> kind, el |-> el, exp |-> ToString(exp), got |-> ToString(got)]

\* one observed element: [k, ty, off, roll]; BPMs have two offsets and one roll
ElDiffs(p, C, s, o, ty) ==
  LET e == Offset(p, C, s, o.k) IN
  UNION {IF Near(e[c], o.off[c]) THEN {} ELSE {V("offset", o.k, e, o.off)} : c \in 1..Len(o.off)}
  \cup (IF Near(Roll(s, o.k), o.roll[1]) THEN {} ELSE {V("roll", o.k, Roll(s, o.k), o.roll)})
  \cup (IF ty = "BPM" THEN {} ELSE
        (IF SlopeOk(p, C, s, o.k, 2, o.roll[2]) THEN {} ELSE {V("pitch", o.k, "rise over length", o.roll)})
        \cup (IF SlopeOk(p, C, s, o.k, 1, o.roll[3]) THEN {} ELSE {V("yaw", o.k, "rise over length", o.roll)}))
Kept(o, prev, ty) == IF <<ty, o>> \in prev THEN {} ELSE {V("kept", o.k, "as before the call", o)}
Diffs(st) ==
  (IF st.exc = "" THEN {} ELSE {V("exc", 0, "no error", st.exc)})
  \cup IF st.op = "at" THEN UNION {ElDiffs(st.pos, st.C, st.str, st.at[j], "at") : j \in 1..Len(st.at)}
       ELSE UNION {IF st.mags THEN ElDiffs(st.pos, st.C, st.str, st.mag[j], "Magnet") ELSE Kept(st.mag[j], obs, "Magnet") : j \in 1..Len(st.mag)}
            \cup UNION {IF st.bpms THEN ElDiffs(st.pos, st.C, st.str, st.bpm[j], "BPM") ELSE Kept(st.bpm[j], obs, "BPM") : j \in 1..Len(st.bpm)}
Init == t \in 1..Len(Traces) /\ i = 0 /\ pos = <<>> /\ str = <<>> /\ obs = {}
Next ==
  /\ i < Len(Traces[t].steps)
  /\ LET st == Traces[t].steps[i + 1] IN
     /\ \A v \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op] @@ v))
     /\ pos' = st.pos /\ str' = st.str
     /\ obs' = IF st.op = "at" THEN obs ELSE {<<"Magnet", st.mag[j]>> : j \in 1..Len(st.mag)} \cup {<<"BPM", st.bpm[j]>> : j \in 1..Len(st.bpm)}
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
