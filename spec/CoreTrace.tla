------------------------------ MODULE CoreTrace ------------------------------
(* Decides recorded executions of pySC against Core.  Every recorded step is   *)
(* one transition; all differences between the specified and the recorded      *)
(* post-state are printed as verdicts, then the recorded state is taken over.   *)
EXTENDS Core, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
VARIABLES t, i, ms

Norm(m) == [m EXCEPT !.sig = Range(@)]
Step(tt, k) == Traces[tt].steps[k]

(* ------------------------------------------------ recorded post-state *)
RECURSIVE PutEls(_, _)
PutEls(els, ds) == IF ds = <<>> THEN els ELSE PutEls([els EXCEPT ![ds[1][1] + 1] = ds[1][2]], Tail(ds))
TopFields == {"BPM", "RF", "Mag", "Skew", "HCM", "VCM", "Girder", "Plinth", "Section", "sig", "inj", "user", "ideal", "shp", "other"}
PutTop(m, top) == IF top = <<>> THEN m
  ELSE [f \in DOMAIN m |-> IF f = "el" THEN m.el ELSE IF f = "sig" THEN Range(top[1].sig) ELSE top[1][f]]
PostOf(m, d) == PutTop([m EXCEPT !.el = PutEls(@, d.els)], d.top)
Logged(cur, st) ==
  IF st.op \in {"copy", "new"} /\ st.exc = "" THEN [k \in 1..Max(Len(cur), st.dst) |->
                            IF k = st.dst THEN PostOf(cur[st.mi], st.d[k]) ELSE PostOf(cur[k], st.d[k])]
  ELSE [k \in 1..Len(cur) |-> PostOf(cur[k], st.d[k])]

(* ------------------------------------------------ specified post-state *)
OnMachine(cur, k, m) == [cur EXCEPT ![k] = m]
Bad(st) == st.op = "bad"
Expected(cur, st) ==
  LET m == cur[st.mi]
      on(x) == OnMachine(cur, st.mi, x)
  IN CASE st.op = "reg_bpm" -> on(Do_reg_bpm(m, st.ords, st.kws))
       [] st.op = "reg_rf"  -> on(Do_reg_rf(m, st.ords, st.kws))
       [] st.op = "reg_mag" -> on(Do_reg_mag(m, st.ords, st.typ, st.kws))
       [] st.op = "reg_sup" -> on(Do_reg_sup(m, st.kind, st.pairs, st.kws))
       [] st.op = "set_mag" -> on(Do_set_mag(m, st.ords, st.vals, st.skew, st.order, st.method, st.comp))
       [] st.op = "set_cm"  -> on(Do_set_cm(m, st.ords, st.vals, st.dim, st.method))
       [] st.op = "set_cav" -> on(Do_set_cav(m, st.ords, st.vals, st.par, st.method))
       [] st.op = "upd_mag" -> on(Do_upd_mag(m, IF st.all THEN m.Mag ELSE st.ords))
       [] st.op = "upd_cav" -> on(Do_upd_cav(m, IF st.all THEN m.RF ELSE st.ords))
       [] st.op = "sys_mult" -> on(Do_sys_mult(m, st.ords, st.tab, st.order, st.skew))
       [] st.op = "switch"  -> on(Do_switch(m, st.modes))
       [] st.op = "new"     -> [k \in 1..Max(Len(cur), st.dst) |-> IF k = st.dst THEN [Norm(Traces[t].init) EXCEPT !.user = m.user] ELSE cur[k]]
       [] st.op = "copy"    -> [k \in 1..Max(Len(cur), st.dst) |-> IF k = st.dst THEN m ELSE cur[k]]
       [] OTHER -> cur            \* observations, rejected calls, frame-only operations

MustRaise(cur, st) == IF st.op = "bad" THEN TRUE ELSE IF st.op = "verify" THEN VerifyRaises(cur[st.mi]) ELSE FALSE
RetOk(cur, st) ==
  IF st.op = "get_cm" THEN SeqEq(Do_get_cm(cur[st.mi], st.ords, st.dim), st.ret) ELSE TRUE

(* ------------------------------- what frame-only operations may change *)
\* st.may : sequence of element fields that may change on any element of machine st.mi,
\* st.maytop : sequence of machine fields that may change
\* random multipoles: new static offsets of the addressed magnets (their size is decided by Errors)
MayEl(st, k, o, f) == \/ st.op = "frame" /\ k = st.mi /\ In(f, st.may)
                      \/ st.op = "rand_mult" /\ k = st.mi /\ In(o, st.ords) /\ f \in {"OA", "OB", "hoff", "raw"}
MayTop(st, k, f) == st.op = "frame" /\ k = st.mi /\ In(f, st.maytop)

NumSeqFields == {"PA", "PB", "SA", "SB", "KA", "NA", "NB", "CA", "CB", "OA", "OB", "lim", "skl", "mo", "mr", "so", "sr", "t1", "t2"}
RfEq(e, g) == \A p \in RfParams : \A f \in {"v", "sp", "off", "cal"} : Eq(e[p][f], g[p][f])
FieldEq(f, e, g) ==
  IF e = g THEN TRUE
  ELSE IF f \in NumSeqFields THEN SeqEq(e, g)
  ELSE IF f = "rf" THEN RfEq(e, g)
  ELSE IF f = "L" \/ f = "MO" \/ f = "bae" THEN Eq(e, g)
  ELSE FALSE
\* role of an element in a call: addressed, child of an addressed magnet, other
Role(m, st, ord) ==
  IF st.op = "reg_sup" THEN (IF ord \in PairEnds(st.pairs) THEN "addressed" ELSE "other")
  ELSE IF "ords" \notin DOMAIN st THEN "other"
  ELSE IF st.op \in {"upd_mag", "upd_cav"} /\ st.all THEN (IF ord \in Range(m.Mag) \cup Range(m.RF) THEN "addressed"
          ELSE IF \E p \in Range(m.Mag) : In(ord, El(m, p).kids) THEN "child" ELSE "other")
  ELSE IF In(ord, st.ords) THEN "addressed"
  ELSE IF \E p \in Range(st.ords) : p < Len(m.el) /\ p >= 0 /\ In(ord, El(m, p).kids) THEN "child" ELSE "other"

ElDiffs(exp, got, st, k) ==
  UNION {IF exp[k].el[o] = got[k].el[o] THEN {}
         ELSE {[kind |-> "el", mi |-> k, ord |-> o - 1, field |-> f, role |-> Role(exp[k], st, o - 1),
                exp |-> ToString(exp[k].el[o][f]), got |-> ToString(got[k].el[o][f])] :
                f \in {g \in DOMAIN exp[k].el[o] :
                        ~FieldEq(g, exp[k].el[o][g], got[k].el[o][g]) /\ ~MayEl(st, k, o - 1, g)
                        /\ (g = "raw" => Role(exp[k], st, o - 1) = "other")}}
         : o \in 1..Len(exp[k].el)}
TopDiffs(exp, got, st, k) ==
  {[kind |-> "top", mi |-> k, ord |-> -1, field |-> f, role |-> "machine",
    exp |-> ToString(exp[k][f]), got |-> ToString(got[k][f])] :
    f \in {g \in TopFields : exp[k][g] # got[k][g] /\ ~MayTop(st, k, g)}}
CallDiffs(cur, st) ==
  (IF st.argsok THEN {} ELSE {[kind |-> "args", mi |-> st.mi, ord |-> -1, field |-> "args", role |-> "call", exp |-> "unchanged", got |-> "changed"]})
  \cup (IF MustRaise(cur, st) = (st.exc # "") \/ (st.op = "frame" /\ st.mayraise) THEN {}
        ELSE {[kind |-> "exc", mi |-> st.mi, ord |-> -1, field |-> "exc", role |-> "call",
               exp |-> IF MustRaise(cur, st) THEN "an error" ELSE "no error", got |-> st.exc]})
  \cup (IF RetOk(cur, st) THEN {}
        ELSE {[kind |-> "ret", mi |-> st.mi, ord |-> -1, field |-> "ret", role |-> "call",
               exp |-> ToString(Do_get_cm(cur[st.mi], st.ords, st.dim)), got |-> ToString(st.ret)]})

\* a new machine: the lattice it was made from, nothing registered, nothing uncertain, one particle on axis for one turn
Zero6 == <<0, 0, 0, 0, 0, 0>>
Fresh == [Z0 |-> Zero6, Z0ideal |-> Zero6, size |-> [k \in 1..36 |-> 0], shape |-> <<6, 6>>, jitter |-> Zero6, n |-> <<1, 1, 1>>, lost |-> ONE, mode |-> "TBT",
          post |-> TRUE, sigjitter |-> Zero6, sigstatic |-> Zero6, circ |-> 0, plot |-> FALSE, coupled |-> <<>>]
NewDiffs(st, got) ==
  LET m == got[st.dst]
      D(f, e, g) == [kind |-> "new", mi |-> st.dst, ord |-> -1, field |-> f, role |-> "machine", exp |-> ToString(e), got |-> ToString(g)]
  IN {D(f, Fresh[f], st.fresh[f]) : f \in {f \in DOMAIN Fresh : st.fresh[f] # Fresh[f]}}
     \cup (IF st.fresh.ring = m.user THEN {} ELSE {D("ring", m.user, st.fresh.ring)})
     \cup (IF m.ideal = m.user THEN {} ELSE {D("ideal", m.user, m.ideal)})
     \cup {D(f, "empty", m[f]) : f \in {f \in {"BPM", "RF", "Mag", "Skew", "HCM", "VCM", "Girder", "Plinth", "Section"} : m[f] # <<>>}}
     \cup (IF m.sig = {} THEN {} ELSE {D("sig", {}, m.sig)})
     \cup {D("registered", o, m.el[o]) : o \in {o \in 1..Len(m.el) : m.el[o].ismag \/ m.el[o].isbpm \/ m.el[o].isrf}}

Verdicts(cur, st) ==
  IF st.op = "poke" THEN {}                 \* the harness itself changed something
  ELSE IF st.op = "edit" THEN               \* the harness changed everything it can reach from one machine in place
    LET got == Logged(cur, st) IN UNION {ElDiffs(cur, got, st, k) \cup TopDiffs(cur, got, st, k) : k \in (1..Len(cur)) \ {st.mi}}
                                 \cup {v \in TopDiffs(cur, got, st, st.mi) : v.field = "user"}
  ELSE IF st.op = "edituser" THEN           \* the user works on the lattice the machines were made from
    LET got == Logged(cur, st) IN {v \in UNION {ElDiffs(cur, got, st, k) \cup TopDiffs(cur, got, st, k) : k \in 1..Len(cur)} : v.field # "user"}
  ELSE LET exp == IF st.exc # "" THEN cur ELSE Expected(cur, st)
           got == Logged(cur, st)
       IN CallDiffs(cur, st) \cup (IF st.op = "new" /\ st.exc = "" THEN NewDiffs(st, got) ELSE {})
          \cup UNION {ElDiffs(exp, got, st, k) \cup TopDiffs(exp, got, st, k) : k \in 1..Len(exp)}

Report(v) == PrintT("VERDICT " \o ToJson(v))

Init == t \in 1..Len(Traces) /\ i = 0 /\ ms = <<Norm(Traces[t].init)>>
Next ==
  /\ i < Len(Traces[t].steps)
  /\ LET st == Step(t, i + 1)
     IN /\ \A v \in Verdicts(ms, st) : Report([t |-> t, step |-> i + 1, op |-> st.op, m0 |-> st.mi] @@ v)
        /\ ms' = Logged(ms, st)
  /\ i' = i + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, i, ms>>

\* invariants checked on every recorded state (as far as they are state properties)
RegistrySorted == \A k \in 1..Len(ms) :
   /\ IsSorted(ms[k].BPM) /\ IsSorted(ms[k].RF) /\ IsSorted(ms[k].Mag)
   /\ IsSorted(ms[k].HCM) /\ IsSorted(ms[k].VCM) /\ IsSorted(ms[k].Skew)
=============================================================================
