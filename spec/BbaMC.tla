------------------------------- MODULE BbaMC -------------------------------
(* Trajectory-based alignment of one BPM in one plane, every linear machine on  *)
(* a small grid: launch, vary one magnet, fit where the magnet does not steer.   *)
(*   mag    present strengths, one per magnet (nominal 4)                         *)
(*   shift  present change of the launch                                          *)
(*   pts    <<reading of the aligned BPM, trajectory change downstream>>          *)
(*   off    offset of the aligned BPM (1/16)                                      *)
EXTENDS Bba
CONSTANTS DEEP
VARIABLES c, mag, shift, pts, off, pc, out
vars == <<c, mag, shift, pts, off, pc, out>>
NOM == <<4, 4>>
Rg(n) == (-n)..n
Init ==
  /\ c \in [z : Rg(IF DEEP THEN 3 ELSE 2), w : IF DEEP THEN {-8, 0, 8} ELSE {0, 8}, ctr : IF DEEP THEN Rg(3) ELSE {-3, 0, 1}, a : {<<1, 0>>, <<1, 8>>, <<0, 8>>}, sb : {8, 16}, sm : {8, 24},
            off0 : IF DEEP THEN {-32, 0, 16} ELSE {-32, 16}, which : IF DEEP THEN 1..2 ELSE {2}, loss : {"no", "dark", "some"}]
  /\ mag = NOM /\ shift = 0 /\ pts = <<>> /\ off = c.off0 /\ pc = "launch" /\ out = "run"
STRENGTHS == {2, 6}
LAUNCHES == <<-2, 0, 3>>
Pos(s) == Straight(c.z, c.w, s) * 8 + shift * Lever(c.a, s)        \* 1/8
Beam == c.loss = "no" \/ (c.loss = "some" /\ shift # 3)
Launch == /\ pc = "launch" /\ shift' = LAUNCHES[Len(pts) + 1]
          /\ pc' = "vary" /\ UNCHANGED <<c, mag, pts, off, out>>
Vary == /\ pc = "vary" /\ \E q \in STRENGTHS : mag' = [mag EXCEPT ![c.which] = q]
        /\ pc' = "read" /\ UNCHANGED <<c, shift, pts, off, out>>
\* the change of the trajectory downstream is proportional to the distance from the centre, in 1/8
Read == /\ pc = "read"
        /\ pts' = Append(pts, [t |-> shift, ok |-> Beam, b |-> Pos(c.sb) - off \div 2, m |-> (mag[c.which] - NOM[c.which]) * (Pos(c.sm) - 8 * c.ctr), q |-> mag[c.which] - NOM[c.which]])
        /\ mag' = NOM /\ shift' = 0
        /\ pc' = (IF Len(pts) + 1 = Len(LAUNCHES) THEN "fit" ELSE "launch") /\ UNCHANGED <<c, off, out>>
Ok == {k \in DOMAIN pts : pts[k].ok}
\* the reading at which the magnet does not steer, from two points (as a fraction)
Fit == /\ pc = "fit"
       /\ \/ /\ Cardinality(Ok) < 2 \/ \A j, k \in Ok : pts[j].m * pts[k].q = pts[k].m * pts[j].q
             /\ out' = "nan" /\ UNCHANGED off
          \/ \E j, k \in Ok :
               LET mj == pts[j].m * pts[k].q
                   mk == pts[k].m * pts[j].q
                   num == pts[j].b * mk - pts[k].b * mj
                   den == mk - mj
               IN /\ (IF den = 0 THEN FALSE ELSE (2 * ABS(num)) % ABS(den) = 0)
                  /\ off' = off + IF (num > 0) = (den > 0) THEN (2 * ABS(num)) \div ABS(den) ELSE -((2 * ABS(num)) \div ABS(den))       \* 1/16
                  /\ out' = "done"
          \/ /\ Cardinality(Ok) >= 2 /\ \A j, k \in Ok : LET den == pts[k].m * pts[j].q - pts[j].m * pts[k].q
                                                             num == pts[j].b * (pts[k].m * pts[j].q) - pts[k].b * (pts[j].m * pts[k].q)
                                                         IN IF den = 0 THEN TRUE ELSE (2 * ABS(num)) % ABS(den) # 0
             /\ out' = "odd" /\ UNCHANGED off                \* not on the grid of this model
       /\ pc' = "end" /\ UNCHANGED <<c, mag, shift, pts>>
Next == Launch \/ Vary \/ Read \/ Fit
Spec == Init /\ [][Next]_vars
OneMagnet == Cardinality({k \in DOMAIN mag : mag[k] # NOM[k]}) <= 1 /\ \A k \in DOMAIN mag : k # c.which => mag[k] = NOM[k]
Restored == pc \in {"fit", "end"} => mag = NOM /\ shift = 0
Quiet == out # "done" => off = c.off0
\* the offset found is where the BPM sees the beam in the centre of the magnet (the criterion applied to recorded alignments)
Right == out = "done" => Centred(off - 16 * Straight(c.z, c.w, c.sb), c.ctr - Straight(c.z, c.w, c.sm), c.a, c.sb, c.sm, 0)
\* and it is the only such offset
Only == out = "done" /\ Lever(c.a, c.sm) # 0 => \A e \in {-1, 1} : ~Centred(off + e - 16 * Straight(c.z, c.w, c.sb), c.ctr - Straight(c.z, c.w, c.sm), c.a, c.sb, c.sm, 0)
NoBeam == c.loss = "dark" /\ pc = "end" => out = "nan"
Verdicts == \A o \in Rg(4), e \in 0..2 : /\ ~(Surely(o, e, 3) /\ Never(o, e, 3))
                                         /\ Surely(o, e, 3) => Applied(o, e, 3)
                                         /\ Never(o, e, 3) => ~Applied(o, e, 3)
=============================================================================
