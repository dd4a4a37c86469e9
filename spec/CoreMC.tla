------------------------------- MODULE CoreMC -------------------------------
(* Free exploration of Core from the initial state of a real machine (read     *)
(* from IOEnv.INIT): which operations may be called in which order is not      *)
(* restricted.  Exhaustive up to MaxDepth in model checking mode; in           *)
(* simulation mode every behaviour is printed and replayed into pySC.          *)
EXTENDS Core, Json, IOUtils

CONSTANTS MaxDepth, Emit
Init0 == LET d == JsonDeserialize(IOEnv.INIT) IN [d EXCEPT !.sig = Range(@)]
Cfg == JsonDeserialize(IOEnv.OPS)        \* operations on offer: sequence of operation records
Ops == Range(Cfg)
VARIABLES m, hist, done

\* done : orders (plane, ord) of correctors set since their last registration, i.e. those bound by their limit
Valid(x, o) ==
  CASE o.op \in {"set_mag", "set_cm", "get_cm"} -> \A k \in Range(o.ords) : El(x, k).ismag
    [] o.op = "upd_mag" -> o.all \/ \A k \in Range(o.ords) : El(x, k).ismag
    [] o.op = "set_cav" -> \A k \in Range(o.ords) : El(x, k).isrf
    [] o.op = "sys_mult" -> \A k \in Range(o.ords) : El(x, k).ismag
    [] OTHER -> TRUE
Apply(x, o) ==
  CASE o.op = "reg_bpm" -> Do_reg_bpm(x, o.ords, <<>>)
    [] o.op = "reg_rf" -> Do_reg_rf(x, o.ords, <<>>)
    [] o.op = "reg_mag" -> Do_reg_mag(x, o.ords, o.typ, <<>>)
    [] o.op = "reg_sup" -> Do_reg_sup(x, o.kind, o.pairs, <<>>)
    [] o.op = "set_mag" -> Do_set_mag(x, o.ords, o.vals, o.skew, o.order, o.method, o.comp)
    [] o.op = "set_cm" -> Do_set_cm(x, o.ords, o.vals, o.dim, o.method)
    [] o.op = "set_cav" -> Do_set_cav(x, o.ords, o.vals, o.par, o.method)
    [] o.op = "upd_mag" -> Do_upd_mag(x, IF o.all THEN x.Mag ELSE o.ords)
    [] o.op = "sys_mult" -> Do_sys_mult(x, o.ords, o.tab, o.order, o.skew)
    [] o.op = "switch" -> Do_switch(x, o.modes)
    [] o.op = "poke" -> [x EXCEPT !.el = [k \in 1..Len(x.el) |->
          LET S == {j \in 1..Len(o.sets) : o.sets[j][1] = k - 1} IN
          IF S = {} THEN x.el[k] ELSE
          LET j == CHOOSE j \in S : TRUE IN
          CASE o.sets[j][2] = "CalErrorA" -> [x.el[k] EXCEPT !.CA = o.sets[j][3]]
            [] o.sets[j][2] = "CalErrorB" -> [x.el[k] EXCEPT !.CB = o.sets[j][3]]
            [] o.sets[j][2] = "BendingAngleError" -> [x.el[k] EXCEPT !.bae = o.sets[j][3], !.hbae = TRUE]
            [] OTHER -> x.el[k]]]
    [] OTHER -> x

Init == m = Init0 /\ hist = <<>> /\ done = {}
Next == \E o \in Ops :
  /\ Len(hist) < MaxDepth
  /\ Valid(m, o)
  /\ m' = Apply(m, o)
  /\ hist' = Append(hist, o)
  /\ done' = CASE o.op = "set_cm" -> done \cup {<<o.dim, k>> : k \in Range(o.ords)}
               [] o.op = "reg_mag" -> {p \in done : ~In(p[2], o.ords)}
               [] o.op = "set_mag" /\ o.order = 0 -> {p \in done : ~In(p[2], o.ords)}
               [] o.op = "set_mag" /\ o.comp /\ o.order = 1 -> done
               [] OTHER -> done
Spec == Init /\ [][Next]_<<m, hist, done>>
View == <<m, done, Len(hist)>>

(* ---------------------------------------------------------------- theorems *)
Magnets == Range(m.Mag)
\* 1 repeating an update changes nothing (no accumulation)
UpdateIdempotent == LET u == Do_upd_mag(m, m.Mag) IN Do_upd_mag(u, u.Mag) = u
\* 2 updates of different magnets commute as long as children belong to one master
UpdateOrder == Do_upd_mag(m, m.Mag) = Do_upd_mag(m, [k \in 1..Len(m.Mag) |-> m.Mag[Len(m.Mag) + 1 - k]])
\* 3 correctors never exceed their limits once set
LimitsHold == \A p \in done : LET e == El(m, p[2]) IN
   (Len(e.lim) = 2 /\ e.lim[p[1] + 1] # INF /\ CmKick(e, p[1]) # UNK) => Abs(CmKick(e, p[1])) <= e.lim[p[1] + 1]
\* 4 what is set is what is read back, if it is within the limit
ReadBack == \A k \in Magnets : \A d \in 0..1 : \A v \in {1024, -512} :
   LET y == Do_set_cm(m, <<k>>, <<v>>, d, "abs")
       e == El(m, k)
       got == Do_get_cm(y, <<k>>, d)[1]
   IN got = UNK \/ got = (IF Len(e.lim) = 2 THEN Clip(v, e.lim[d + 1]) ELSE v)
\* 5 additive settings compose, absolute settings forget
Compose == \A k \in Magnets : El(m, k).lim = <<>> =>
   LET y == Do_set_cm(Do_set_cm(m, <<k>>, <<512>>, 0, "add"), <<k>>, <<512>>, 0, "add")
   IN El(y, k).SB[1] = UNK \/ y = Do_set_cm(m, <<k>>, <<1024>>, 0, "add")
\* 6 setting a magnet touches only that magnet and its children
FrameSet == \A k \in Magnets : \A o \in 1..Len(m.el) :
   LET y == Do_set_mag(m, <<k>>, <<1024>>, FALSE, 0, "abs", FALSE)
   IN (o - 1 # k /\ ~In(o - 1, El(m, k).kids)) => y.el[o] = m.el[o]
\* 7 relative 1 is the nominal value, additive 0 the present one
Neutral == \A k \in Magnets : LET y == Do_set_mag(m, <<k>>, <<0>>, FALSE, 1, "add", FALSE)
                                  z == Do_set_mag(m, <<k>>, <<ONE>>, FALSE, 1, "rel", FALSE)
   IN El(y, k).SB = El(m, k).SB /\ El(z, k).SB[2] = El(m, k).NB[2]
\* 8 compensation keeps the dipole field of an error-free combined function corrector away from its limit
CompensationKeepsDipole == \A k \in Magnets : LET e == El(m, k) IN
   (e.cf /\ e.hang /\ In(k, m.HCM) /\ e.lim[1] = INF /\ e.CB = Zeros(Len(e.CB)) /\ e.sys = <<>>) =>
      LET u == Do_upd_mag(m, <<k>>)
          y == Do_set_mag(u, <<k>>, <<3 * 1024>>, FALSE, 1, "abs", TRUE)
      IN El(y, k).PB[1] = El(u, k).PB[1] \/ El(y, k).PB[1] = UNK \/ El(u, k).PB[1] = UNK
\* 9 children carry the master's field (up to their own length, angle and offsets)
ChildrenFollow == \A k \in Magnets : \A c \in Range(El(m, k).kids) :
   LET u == Do_upd_mag(m, <<k>>) IN
   El(u, c).sys = <<>> /\ El(u, k).sys = <<>> /\ ~El(u, c).hoff /\ ~El(u, k).hoff =>
      \A j \in 2..Len(El(u, k).PB) : El(u, c).PB[j] = El(u, k).PB[j]
\* 10 switching: off wins, idempotent, on then off returns
SwitchLaws == \A modes \in {<<"cavityoff">>, <<"cavityon">>, <<"radiationon">>, <<"radiationoff">>, <<"cavityon", "cavityoff", "radiationon">>} :
   LET y == Do_switch(m, modes) IN
   /\ Do_switch(y, modes) = y
   /\ Do_switch(Do_switch(y, <<"radiationon">>), <<"radiationoff">>) = Do_switch(y, <<"radiationoff">>)
   /\ Do_switch(m, <<"cavityoff", "cavityon">>) = Do_switch(m, <<"cavityoff">>)
\* 11 the registry is sorted and closed
Registry ==
   /\ IsSorted(m.BPM) /\ IsSorted(m.RF) /\ IsSorted(m.Mag) /\ IsSorted(m.HCM) /\ IsSorted(m.VCM) /\ IsSorted(m.Skew)
   /\ Range(m.HCM) \cup Range(m.VCM) \cup Range(m.Skew) \subseteq Range(m.Mag)
   /\ \A k \in Range(m.Mag) : El(m, k).ismag
   /\ \A k \in Range(m.HCM) \cup Range(m.VCM) : Len(El(m, k).lim) = 2
   /\ \A t \in Kinds : \A k \in 1..Len(m[t]) : El(m, m[t][k][1]).sup[t].has /\ El(m, m[t][k][2]).sup[t].has
\* 12 fields and field order agree, orbit corrector kicks are the dipole components
FieldOrder == \A k \in Magnets : LET u == Do_upd_mag(m, <<k>>) IN
   /\ El(u, k).MO = Len(El(u, k).PB) - 1
   /\ (El(u, k).pm = "CorrectorPass" => El(u, k).KA = <<El(u, k).PB[1], El(u, k).PA[1]>>)

Emitted == (Emit /\ Len(hist) = MaxDepth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
