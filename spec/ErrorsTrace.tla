---------------------------- MODULE ErrorsTrace ----------------------------
(* Decides recorded histories of registering uncertainties and applying errors *)
EXTENDS Errors, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, sigma, val, sup, zs, stat, napp
vars == <<t, i, sigma, val, sup, zs, stat, napp>>
St(tt, k) == Traces[tt].steps[k]
Empty == [x \in {} |-> 0]
Field(k) == Data.fields[k]       \* error field of a key
Elem(k) == Data.elems[k]         \* kind:ord of a key

\* kinds of step: reg, sig (uncertainties changed directly), apply, settle, frame
V(kind, key, exp, got) == [kind |-> kind, key |-> key, exp |-> exp, got |-> got]
ApplyDiffs(st) ==
  (IF st.exc = "" THEN {} ELSE {V("exc", "apply_errors", "no error", st.exc)})
  \cup UNION {
     LET v == st.vals[k] IN
     IF ~Has(sigma, k) THEN (IF v = val[k] THEN {} ELSE {V("nosigma", k, ToString(val[k]), ToString(v))})
     ELSE IF Field(k) \in NOISE THEN (IF v = sigma[k].s THEN {} ELSE {V("noise", k, ToString(sigma[k].s), ToString(v))})
     ELSE IF sigma[k].s = 0 THEN (IF v = 0 THEN {} ELSE {V("zero", k, "0", ToString(v))})
     ELSE (IF Drawn(sigma[k], st.call, v) THEN {} ELSE {V("bound", k, ToString(Bound16(sigma[k], st.call) \div 16), ToString(v))})
          \cup (IF k \in DOMAIN zs /\ zs[k] = st.z[k] THEN {V("stale", k, "a new value", "the previous one")} ELSE {})
     : k \in DOMAIN val}
  \cup UNION {
     IF AnySup(sigma, st.sup[j]) THEN
        (IF SupOk(sigma, st.call, st.sup[j]) THEN {} ELSE {V("support", ToString(<<st.sup[j].kind, st.sup[j].a, st.sup[j].b>>), "within bounds", ToString(st.sup[j]))})
     ELSE (IF st.sup[j] = [sup[j] EXCEPT !.L = st.sup[j].L] THEN {} ELSE {V("support", ToString(<<st.sup[j].kind, st.sup[j].a>>), ToString(sup[j]), ToString(st.sup[j]))})
     : j \in 1..Len(st.sup)}
  \* every scalar has its own draw
  \cup (IF Cardinality({st.z[k] : k \in DOMAIN st.z}) = Cardinality(DOMAIN st.z) THEN {}
        ELSE {V("shared", ToString(CHOOSE k \in DOMAIN st.z : \E l \in DOMAIN st.z : l # k /\ st.z[l] = st.z[k]), "independent", "equal draws")})
  \cup (IF 16 * Abs(st.circ) <= st.call * st.circsig + 64 THEN {} ELSE {V("circ", "circumference", ToString(st.circsig), ToString(st.circ))})
  \cup (IF st.rinj THEN {} ELSE {V("rinj", "randomInjectionZ", "the uncertainties", "different")})

SameVals(st) == UNION {IF st.vals[k] = val[k] THEN {} ELSE {V("frame", k, ToString(val[k]), ToString(st.vals[k]))} : k \in DOMAIN val}
Diffs(st) ==
  CASE st.op = "apply" -> ApplyDiffs(st)
    [] st.op = "reg" ->
         UNION {LET e == IF Elem(k) \in {st.els[j] : j \in 1..Len(st.els)} THEN 0 ELSE val[k]
                IN IF st.vals[k] = e \/ (Field(k) = "BendingAngle" /\ st.vals[k] = val[k]) THEN {} ELSE {V("reg", k, ToString(e), ToString(st.vals[k]))} : k \in DOMAIN val}
         \cup (IF st.exc = "" THEN {} ELSE {V("exc", "register", "no error", st.exc)})
    [] st.op = "settle" -> SameVals(st) \cup (IF st.same THEN {} ELSE {V("settle", "fields", "those of the drawn errors", st.what)})
    [] st.op = "zero" -> (IF st.same THEN {} ELSE {V("errorfree", "machine", "the error-free machine", st.what)})
    [] st.op = "mult" -> \* random multipoles: additional static offsets of at most twice the table
         UNION {IF (st.d[j].s = 0 /\ st.d[j].v = 0) \/ (st.d[j].s # 0 /\ Abs(st.d[j].v) <= 2 * Abs(st.d[j].s) + 4) THEN {}
                ELSE {V("mbound", ToString(<<st.d[j].ord, st.d[j].c>>), ToString(2 * Abs(st.d[j].s)), ToString(st.d[j].v))} : j \in 1..Len(st.d)}
         \cup (LET N == {j \in 1..Len(st.d) : st.d[j].s # 0} IN
               IF Cardinality({st.d[j].z : j \in N}) = Cardinality(N) THEN {} ELSE {V("mshared", "draws", "independent", "equal")})
         \cup (IF st.exc = "" THEN {} ELSE {V("exc", "set_random_multipole_errors", "no error", st.exc)})
    [] OTHER -> {}

Group(k) == <<Data.kinds[k], IF sigma[k].c >= 0 THEN "own" ELSE "call">>
FarKey == <<"any", "own cutoff above that of the call">>
Stats(st) ==
  IF st.op # "apply" THEN stat
  ELSE LET K == {k \in DOMAIN val : Has(sigma, k) /\ sigma[k].s # 0 /\ Field(k) \notin NOISE}
           G == {Group(k) : k \in K}
           new(g) == LET S == {k \in K : Group(k) = g} IN
             [n |-> Cardinality(S), big |-> Cardinality({k \in S : 4 * 16 * Abs(st.vals[k]) > Bound16(sigma[k], st.call)}),
              pos |-> Cardinality({k \in S : st.vals[k] > 0}), neg |-> Cardinality({k \in S : st.vals[k] < 0})]
           old(g) == IF g \in DOMAIN stat THEN stat[g] ELSE [n |-> 0, big |-> 0, pos |-> 0, neg |-> 0]
           \* errors whose own cutoff is at least three times that of the call
           W == {k \in K : sigma[k].c >= 3 * st.call}
           far == [n |-> Cardinality(W), big |-> Cardinality({k \in W : 16 * Abs(st.vals[k]) > st.call * sigma[k].s + 32}), pos |-> 1, neg |-> 1]
           add(f, o) == [x \in {"n", "big", "pos", "neg"} |-> f[x] + o[x]]
           all == [g \in DOMAIN stat \cup G |-> IF g \in G THEN [f \in {"n", "big", "pos", "neg"} |-> old(g)[f] + new(g)[f]] ELSE stat[g]]
       IN (FarKey :> add(far, IF FarKey \in DOMAIN stat THEN stat[FarKey] ELSE [n |-> 0, big |-> 0, pos |-> 0, neg |-> 0])) @@ all
SpreadDiffs(s) == UNION {IF s[g].n < (IF g = FarKey THEN 24 ELSE 60) \/ (s[g].big > 0 /\ s[g].pos > 0 /\ s[g].neg > 0) THEN {}
                         ELSE {V("spread", ToString(g), "values of both signs filling the cutoff", ToString(s[g]))} : g \in DOMAIN s}

Init == t \in 1..Len(Traces) /\ i = 0 /\ sigma = Empty /\ val = Traces[t].init /\ sup = <<>> /\ zs = Empty /\ stat = Empty /\ napp = 0
Next ==
  /\ i < Len(Traces[t].steps)
  /\ LET st == St(t, i + 1) IN
     /\ stat' = Stats(st)
     /\ \A v \in Diffs(st) \cup (IF i + 1 = Len(Traces[t].steps) THEN SpreadDiffs(stat') ELSE {}) :
          PrintT("VERDICT " \o ToJson([t |-> t, step |-> i + 1, op |-> st.op, nth |-> napp + 1] @@ v))
     /\ sigma' = IF st.op \in {"reg", "sig"} THEN st.sig @@ sigma ELSE sigma
     /\ val' = st.vals
     /\ sup' = st.sup
     /\ zs' = IF st.op = "apply" THEN st.z ELSE zs
     /\ napp' = IF st.op = "apply" THEN napp + 1 ELSE napp
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
