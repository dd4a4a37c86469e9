----------------------------- MODULE AlignTrace -----------------------------
(* Decides recorded transformations: each step is one misalignment of one       *)
(* element, given as a sum of support and magnet parts, with recorded particles. *)
EXTENDS Align, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, seen
vars == <<t, i, seen>>
TOL == 20
V(kind, exp, got) == [kind |-> kind, exp |-> ToString(exp), got |-> ToString(got)]
Key(st) == <<st.m.d, st.m.w, st.m.big>>
Diffs(st) ==
  (IF st.exc = "" THEN {} ELSE {V("exc", "no error", st.exc)})
  \cup UNION {
     LET p == st.parts[k] IN
     (IF p.ok THEN {} ELSE {V("finite", "finite coordinates", p)})
     \cup (IF NearZ(Enter(st.m, p.z), p.in, TOL) THEN {} ELSE {V("machinery", Enter(st.m, p.z), p.in)})
     \cup (IF NearZ(Leave(st.m, p.out0), p.out, TOL) THEN {} ELSE {V("law", Leave(st.m, p.out0), p.out)})
     \cup (IF st.free /\ ~NearZ(Fly(p.z, st.len), p.out, TOL) THEN {V("netfree", Fly(p.z, st.len), p.out)} ELSE {})
     \cup (IF st.free /\ Abs(p.dct) > TOL THEN {V("netfree", "no path length", p.dct)} ELSE {})
     : k \in 1..Len(st.parts)}
  \* only the total matters, no matter how it is split or how often it is evaluated
  \cup {V("total", "the same transformation", st.split) : s \in {x \in seen : x[1] = Key(st) /\ x[2] # st.tr}}
  \cup (IF st.m.d = <<0, 0, 0>> /\ st.m.w = <<0, 0, 0>> /\ st.m.big.s = 0 /\ st.m.big.c = st.m.big.den /\ ~st.ident
        THEN {V("identity", "the identity", st.split)} ELSE {})
  \cup (IF st.again THEN {} ELSE {V("again", "no change", "changed when evaluated again")})
  \cup (IF st.child THEN {} ELSE {V("child", "the transformation of its master", "another one")})
Init == t \in 1..Len(Traces) /\ i = 0 /\ seen = {}
Next ==
  /\ i < Len(Traces[t].steps)
  /\ LET st == Traces[t].steps[i + 1] IN
     /\ \A v \in Diffs(st) : PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> "align", el |-> st.el] @@ v))
     /\ seen' = seen \cup {<<Key(st), st.tr>>}
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
