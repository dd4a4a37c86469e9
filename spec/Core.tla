-------------------------------- MODULE Core --------------------------------
(* State of a simulated machine and the effect of every call that registers,  *)
(* sets or updates something.  A machine m is a record                         *)
(*   el    : sequence of elements (element index ord is el[ord+1])             *)
(*   BPM, RF, Mag, Skew, HCM, VCM : registry index lists (sequences)           *)
(*   Girder, Plinth, Section      : sequences of <<start, end>>                *)
(*   sig   : set of <<kind, ord, field, value>>                                *)
(*   inj   : injection settings (opaque string), user, ideal : digests of the  *)
(*           user's lattice and the design lattice, shp: shapes of inj arrays  *)
(* Elements are records with the fields listed in harness/project.py.          *)
EXTENDS Fix, TLC

Kinds == {"Section", "Plinth", "Girder"}
SetToSorted(S) == IF S = {} THEN <<>> ELSE
  LET n == Cardinality(S)
      rank(x) == Cardinality({y \in S : y < x}) + 1
  IN [k \in 1..n |-> CHOOSE x \in S : rank(x) = k]
IsSorted(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
El(m, ord) == m.el[ord + 1]
In(x, s) == \E k \in 1..Len(s) : s[k] = x

(* ------------------------------------------------------------------ fields *)
\* field components before static and systematic multipoles
Excite(sp, cal) == [k \in 1..Len(sp) |-> Mul(sp[k], Add(ONE, At(cal, k)))]

RECURSIVE SysSum(_, _, _, _, _)
\* systematic multipoles of target plane t: sp is the sequence of
\* [t, s, n, c] entries of the target element
SysSum(entries, t, pa, pb, acc) ==
  IF entries = <<>> THEN acc
  ELSE LET x == Head(entries)
           amp == IF x.s = "A" THEN At(pa, x.n + 1) ELSE At(pb, x.n + 1)
           new == IF x.t = t THEN AddP(acc, [k \in 1..Len(x.c) |-> Mul(amp, x.c[k])]) ELSE acc
       IN SysSum(Tail(entries), t, pa, pb, new)

\* dipole term of a bending angle error and of a combined function deviation
DipoleTerm(src, tgt) ==
  LET bae == IF src.hbae THEN Div(Mul(src.bae, tgt.ang), tgt.L) ELSE 0
      alpha == Div(Mul(At(src.SB, 2), Add(ONE, At(src.CB, 2))), At(src.NB, 2))
      cf == IF src.hang /\ src.cf THEN Div(Sub(Mul(alpha, tgt.ang), tgt.ang), tgt.L) ELSE 0
  IN Add(bae, cf)

FieldsFrom(src, tgt) ==
  LET pa == Excite(src.SA, src.CA)
      pb == Excite(src.SB, src.CB)
      a == SysSum(tgt.sys, "A", pa, pb, IF tgt.hoff THEN AddP(pa, tgt.OA) ELSE pa)
      b == SysSum(tgt.sys, "B", pa, pb, IF tgt.hoff THEN AddP(pb, tgt.OB) ELSE pb)
      b1 == [b EXCEPT ![1] = Add(@, DipoleTerm(src, tgt))]
  IN [tgt EXCEPT !.PA = a, !.PB = b1, !.MO = Len(b1) - 1,
                 !.KA = IF src.pm = "CorrectorPass" THEN <<b1[1], a[1]>> ELSE @]

RECURSIVE UpdChildren(_, _, _)
UpdChildren(m, i, kids) ==
  IF kids = <<>> THEN m
  ELSE UpdChildren([m EXCEPT !.el[Head(kids) + 1] = FieldsFrom(m.el[i + 1], @)], i, Tail(kids))
UpdMagnet(m, i) ==
  LET m1 == [m EXCEPT !.el[i + 1] = FieldsFrom(@, @)]
  IN UpdChildren(m1, i, El(m1, i).kids)
RECURSIVE UpdMagnets(_, _)
UpdMagnets(m, ords) == IF ords = <<>> THEN m ELSE UpdMagnets(UpdMagnet(m, Head(ords)), Tail(ords))

(* ---------------------------------------------------------- setting values *)
Bcast(vals, n) == IF Len(vals) = n THEN vals ELSE [k \in 1..n |-> vals[1]]
SetpointCountOk(ords, vals) == Len(vals) = 1 \/ Len(vals) = Len(ords)

\* a kick of plane d is (sign * length) times the dipole setpoint
CmNorm(e, d) == IF e.pm = "CorrectorPass" THEN ONE ELSE (IF d = 1 THEN 1 ELSE -1) * e.L
CmKick(e, d) == Mul(IF d = 1 THEN e.SA[1] ELSE e.SB[1], CmNorm(e, d))
Clip(v, lim) == IF v = UNK \/ lim = INF THEN v ELSE IF Abs(v) > Abs(lim) THEN Sgn(v) * lim ELSE v

SetCmOne(m, i, val, d, method) ==
  LET e == El(m, i)
      want == IF method = "abs" THEN val
              ELSE IF method = "rel" THEN Mul(val, CmKick(e, d)) ELSE Add(val, CmKick(e, d))
      v == IF Len(e.lim) = 2 THEN Clip(want, e.lim[d + 1]) ELSE want
      sp == Div(v, CmNorm(e, d))
  IN IF d = 1 THEN [m EXCEPT !.el[i + 1].SA[1] = sp] ELSE [m EXCEPT !.el[i + 1].SB[1] = sp]
RECURSIVE SetCmLoop(_, _, _, _, _)
SetCmLoop(m, ords, vals, d, method) ==
  IF ords = <<>> THEN m
  ELSE SetCmLoop(SetCmOne(m, Head(ords), Head(vals), d, method), Tail(ords), Tail(vals), d, method)
Do_set_cm(m, ords, vals, d, method) ==
  UpdMagnets(SetCmLoop(m, ords, Bcast(vals, Len(ords)), d, method), ords)

Do_get_cm(m, ords, d) == [k \in 1..Len(ords) |-> CmKick(El(m, ords[k]), d)]

Compensate(m, i, sp) ==
  LET e == El(m, i) IN
  IF e.hang /\ e.ang # 0 /\ In(i, m.HCM)
  THEN Do_set_cm(m, <<i>>, <<Mul(Div(Sub(sp, e.SB[2]), e.NB[2]), e.ang)>>, 0, "add")
  ELSE m

SetMagOne(m, i, val, skew, order, comp) ==
  LET e == El(m, i)
      v == IF skew /\ order = 1 /\ Len(e.skl) = 1 THEN Clip(val, e.skl[1]) ELSE val
      m1 == IF comp /\ order = 1 /\ ~skew THEN Compensate(m, i, v) ELSE m
  IN IF skew THEN [m1 EXCEPT !.el[i + 1].SA[order + 1] = v]
     ELSE [m1 EXCEPT !.el[i + 1].SB[order + 1] = v]
RECURSIVE SetMagLoop(_, _, _, _, _, _)
SetMagLoop(m, ords, vals, skew, order, comp) ==
  IF ords = <<>> THEN m
  ELSE SetMagLoop(SetMagOne(m, Head(ords), Head(vals), skew, order, comp),
                  Tail(ords), Tail(vals), skew, order, comp)
MagBase(m, i, skew, order, method) ==
  LET e == El(m, i) IN
  IF method = "rel" THEN (IF skew THEN e.NA ELSE e.NB)[order + 1]
  ELSE (IF skew THEN e.SA ELSE e.SB)[order + 1]
MagWanted(m, ords, vals, skew, order, method) ==
  LET w == Bcast(vals, Len(ords)) IN
  [k \in 1..Len(ords) |->
     IF method = "abs" THEN w[k]
     ELSE IF method = "rel" THEN Mul(w[k], MagBase(m, ords[k], skew, order, method))
     ELSE Add(w[k], MagBase(m, ords[k], skew, order, method))]
Do_set_mag(m, ords, vals, skew, order, method, comp) ==
  UpdMagnets(SetMagLoop(m, ords, MagWanted(m, ords, vals, skew, order, method), skew, order, comp), ords)

Do_upd_mag(m, ords) == UpdMagnets(m, ords)

(* ---------------------------------------------------------------- cavities *)
RfParams == {"V", "F", "P"}
CavValue(x) == Add(Mul(x.sp, Add(ONE, x.cal)), x.off)
UpdCav(m, i) ==
  [m EXCEPT !.el[i + 1].rf = [p \in RfParams |-> [@[p] EXCEPT !.v = CavValue(m.el[i + 1].rf[p])]]]
RECURSIVE UpdCavs(_, _)
UpdCavs(m, ords) == IF ords = <<>> THEN m ELSE UpdCavs(UpdCav(m, Head(ords)), Tail(ords))
RECURSIVE SetCavLoop(_, _, _, _)
SetCavLoop(m, ords, vals, p) ==
  IF ords = <<>> THEN m
  ELSE SetCavLoop([m EXCEPT !.el[Head(ords) + 1].rf[p].sp = Head(vals)], Tail(ords), Tail(vals), p)
Do_set_cav(m, ords, vals, p, method) ==
  LET w == Bcast(vals, Len(ords))
      v == [k \in 1..Len(ords) |->
             LET cur == El(m, ords[k]).rf[p].sp IN
             IF method = "abs" THEN w[k] ELSE IF method = "rel" THEN Mul(w[k], cur) ELSE Add(w[k], cur)]
  IN UpdCavs(SetCavLoop(m, ords, v, p), ords)
Do_upd_cav(m, ords) == UpdCavs(m, ords)

(* ------------------------------------------------------------ registration *)
SigPut(sig, kind, ords, kws) ==
  {x \in sig : ~(x[1] = kind /\ x[2] \in ords /\ \E k \in 1..Len(kws) : kws[k][1] = x[3])}
    \cup {<<kind, o, kws[k][1], kws[k][2]>> : o \in ords, k \in 1..Len(kws)}
Join(s, ords) == SetToSorted(Range(s) \cup Range(ords))

\* apply F to the listed elements
MapEl(m, ords, F(_)) == [m EXCEPT !.el = [k \in 1..Len(m.el) |-> IF In(k - 1, ords) THEN F(m.el[k]) ELSE m.el[k]]]

InitBpm(e) == [e EXCEPT !.bpm = [noise |-> <<0, 0>>, noiseco |-> <<0, 0>>, off |-> <<0, 0>>, supoff |-> <<0, 0>>,
                                 roll |-> 0, suproll |-> 0, cal |-> <<0, 0>>, sum |-> 0], !.isbpm = TRUE]
Do_reg_bpm(m, ords, kws) ==
  [MapEl(m, ords, InitBpm) EXCEPT !.BPM = Join(@, ords), !.sig = SigPut(@, "BPM", Range(ords), kws)]

InitCav(e) == [e EXCEPT !.rf = [p \in RfParams |-> [v |-> @[p].v, sp |-> @[p].v, off |-> 0, cal |-> 0]], !.isrf = TRUE]
Do_reg_rf(m, ords, kws) ==
  [MapEl(m, ords, InitCav) EXCEPT !.RF = Join(@, ords), !.sig = SigPut(@, "RF", Range(ords), kws)]

\* t: record of type flags [cf, hcm, vcm, skq : sequences (<<>> = not given), kids : sequence of <<ord, children>>]
InitMag(e, t, kids) ==
  LET lim0 == IF Len(e.lim) = 2 THEN e.lim ELSE IF t.hcm # <<>> \/ t.vcm # <<>> THEN <<0, 0>> ELSE <<>>
      lim1 == IF t.hcm # <<>> THEN [lim0 EXCEPT ![1] = t.hcm[1]] ELSE lim0
      lim2 == IF t.vcm # <<>> THEN [lim1 EXCEPT ![2] = t.vcm[1]] ELSE lim1
  IN [e EXCEPT !.ismag = TRUE, !.NA = e.PA, !.NB = e.PB, !.SA = e.PA, !.SB = e.PB,
               !.CA = Zeros(Len(e.PA)), !.CB = Zeros(Len(e.PB)),
               !.mo = Zeros(3), !.mr = Zeros(3), !.so = Zeros(3), !.sr = Zeros(3), !.t1 = Zeros(6), !.t2 = Zeros(6),
               !.cf = (@ \/ t.cf), !.lim = lim2, !.skl = IF t.skq # <<>> THEN t.skq ELSE @,
               !.kids = IF kids # <<>> THEN kids[1] ELSE @]
KidsOf(t, ord) == LET s == {k \in 1..Len(t.kids) : t.kids[k][1] = ord} IN
                  IF s = {} THEN <<>> ELSE <<t.kids[CHOOSE k \in s : TRUE][2]>>
Do_reg_mag(m, ords, t, kws) ==
  [m EXCEPT !.el = [k \in 1..Len(m.el) |-> IF In(k - 1, ords) THEN InitMag(m.el[k], t, KidsOf(t, k - 1)) ELSE m.el[k]],
            !.Mag = Join(@, ords),
            !.HCM = IF t.hcm # <<>> THEN Join(@, ords) ELSE @,
            !.VCM = IF t.vcm # <<>> THEN Join(@, ords) ELSE @,
            !.Skew = IF t.skq # <<>> THEN Join(@, ords) ELSE @,
            !.sig = SigPut(@, "Magnet", Range(ords), kws)]

\* pairs sorted by end then start, without duplicates
PairLess(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
SortPairs(S) == LET n == Cardinality(S)
                    rank(x) == Cardinality({y \in S : PairLess(y, x)}) + 1
                IN [k \in 1..n |-> CHOOSE x \in S : rank(x) = k]
PairEnds(pairs) == {pairs[k][1] : k \in 1..Len(pairs)} \cup {pairs[k][2] : k \in 1..Len(pairs)}
\* kws: sequence of <<field, start value, end value or "">>
SupSig(sig, kind, pairs, kws) ==
  LET starts == {pairs[k][1] : k \in 1..Len(pairs)}
      ends == {pairs[k][2] : k \in 1..Len(pairs)}
      names == {kws[k][1] : k \in 1..Len(kws)}
      drop == {x \in sig : x[1] = "Support" /\ x[3] \in names
                 /\ (x[2] \in starts \/ (x[2] \in ends /\ \E k \in 1..Len(kws) : kws[k][1] = x[3] /\ kws[k][3] # ""))}
  IN (sig \ drop)
      \cup {<<"Support", o, kws[k][1], kws[k][2]>> : o \in starts, k \in 1..Len(kws)}
      \cup {<<"Support", o, kws[k][1], kws[k][3]>> : o \in ends, k \in {j \in 1..Len(kws) : kws[j][3] # ""}}
Do_reg_sup(m, kind, pairs, kws) ==
  LET ends == PairEnds(pairs)
      ini(e) == [e EXCEPT !.sup = [@ EXCEPT ![kind] = [has |-> TRUE, off |-> Zeros(3), roll |-> Zeros(3)]]]
      m1 == [m EXCEPT !.el = [k \in 1..Len(m.el) |-> IF (k - 1) \in ends THEN ini(m.el[k]) ELSE m.el[k]],
                      !.sig = SupSig(@, kind, pairs, kws)]
      all == SortPairs(Range(m[kind]) \cup Range(pairs))
  IN [m1 EXCEPT ![kind] = all]

(* -------------------------------------------------------------- multipoles *)
\* tab: sequence of <<normal, skew>> rows
Do_sys_mult(m, ords, tab, order, skew) ==
  LET src == IF skew THEN "A" ELSE "B"
      colB == [k \in 1..Len(tab) |-> IF ~skew /\ k = order + 1 THEN 0 ELSE tab[k][1]]
      colA == [k \in 1..Len(tab) |-> IF skew /\ k = order + 1 THEN 0 ELSE tab[k][2]]
      \* entries are kept sorted by target, source, order
      Less(x, y) == IF x.t # y.t THEN x.t = "A" ELSE IF x.s # y.s THEN x.s = "A" ELSE x.n < y.n
      put(old) ==
        LET S == {x \in Range(old) : ~(x.s = src /\ x.n = order)}
                   \cup {[t |-> "A", s |-> src, n |-> order, c |-> colA], [t |-> "B", s |-> src, n |-> order, c |-> colB]}
            rank(x) == Cardinality({y \in S : Less(y, x)}) + 1
        IN [k \in 1..Cardinality(S) |-> CHOOSE x \in S : rank(x) = k]
  IN [m EXCEPT !.el = [k \in 1..Len(m.el) |-> IF In(k - 1, ords) THEN [m.el[k] EXCEPT !.sys = put(@)] ELSE m.el[k]]]

(* --------------------------------------------------------------- switching *)
NonRad == {"BndMPoleSymplectic4Pass", "BndMPoleSymplectic4E2Pass", "StrMPoleSymplectic4Pass"}
RadOf(p) == IF p = "BndMPoleSymplectic4Pass" THEN "BndMPoleSymplectic4RadPass"
            ELSE IF p = "BndMPoleSymplectic4E2Pass" THEN "BndMPoleSymplectic4E2RadPass"
            ELSE IF p = "StrMPoleSymplectic4Pass" THEN "StrMPoleSymplectic4RadPass" ELSE p
Rad == {RadOf(p) : p \in NonRad}
NonRadOf(p) == IF p \in Rad THEN CHOOSE q \in NonRad : RadOf(q) = p ELSE p
SwitchPm(e, modes) ==
  LET p1 == IF "radiationoff" \in modes THEN NonRadOf(e.pm)
            ELSE IF "radiationon" \in modes THEN RadOf(e.pm) ELSE e.pm
      p2 == IF e.hrf THEN (IF "cavityoff" \in modes THEN "IdentityPass"
                           ELSE IF "cavityon" \in modes THEN "RFCavityPass" ELSE p1) ELSE p1
  IN [e EXCEPT !.pm = p2]
Do_switch(m, modes) == [m EXCEPT !.el = [k \in 1..Len(m.el) |-> SwitchPm(m.el[k], Range(modes))]]

(* ------------------------------------------------------------ verification *)
VerifyRaises(m) ==
  \/ m.Girder = <<>> /\ (m.Plinth # <<>> \/ m.Section # <<>>)
  \/ \E i \in Range(m.Mag) : LET e == El(m, i) IN
       \/ Len(e.PA) # Len(e.PB) \/ Len(e.SA) # Len(e.CA) \/ Len(e.SB) # Len(e.CB)
       \/ e.hoff /\ Len(e.OA) # Len(e.OB)
       \/ e.cf /\ ~e.hang
  \/ m.shp # <<"(6, 6)", "(6,)", "(6,)">>
=============================================================================
