-------------------------------- MODULE Beam --------------------------------
(* Particles through a ring of drifts, thin kicks and apertures; what the beam  *)
(* position monitors make of them.  Lengths in 1/8 m, coordinates and kicks in  *)
(* 2^-20, gradients and calibration errors in 1/64, loss limits in 1/16.         *)
(*   ring     : sequence of [ty, L, k, g, ap]                                     *)
(*              ty drift, thin, ap or mark; k = <<b0, a0>>, g = <<b1, a1>>;        *)
(*              ap = <<>> or <<xmin, xmax, ymin, ymax>>                            *)
(*   particle : [on, fz, v] alive, too close to an aperture to tell, <<x,px,y,py>> *)
EXTENDS Integers, Sequences, FiniteSets
NAN == 1777777777
ABS(a) == IF a < 0 THEN -a ELSE a
FZ == 16

Checked(p, ap) ==
  IF ap = <<>> \/ ~p.on THEN p
  ELSE LET x == p.v[1]
           y == p.v[3]
           near == ABS(x - ap[1]) <= FZ \/ ABS(x - ap[2]) <= FZ \/ ABS(y - ap[3]) <= FZ \/ ABS(y - ap[4]) <= FZ
       IN [p EXCEPT !.on = ap[1] < x /\ x < ap[2] /\ ap[3] < y /\ y < ap[4], !.fz = @ \/ near]
Drift(v, L) == <<v[1] + (v[2] * L) \div 8, v[2], v[3] + (v[4] * L) \div 8, v[4]>>
Thin(v, k, g) == <<v[1], v[2] - k[1] - (g[1] * v[1] - g[2] * v[3]) \div 64, v[3], v[4] + k[2] + (g[1] * v[3] + g[2] * v[1]) \div 64>>
\* the tracking code gives up particles at 1 m (or rad); such particles (and whatever they would do next) are not judged
WALL == 900000
Far(p) == \E c \in 1..4 : ABS(p.v[c]) >= WALL
Moved(el, p) ==
  CASE el.ty = "drift" -> LET q == Checked(p, el.ap) IN IF q.on THEN Checked([q EXCEPT !.v = Drift(@, el.L)], el.ap) ELSE q
         [] el.ty = "thin" -> [p EXCEPT !.v = Thin(@, el.k, el.g)]
         [] el.ty = "ap" -> Checked(p, el.ap)
         [] OTHER -> p
Pass(el, p) ==
  IF ~p.on \/ Far(p) THEN [p EXCEPT !.fz = @ \/ (p.on /\ Far(p))]
  ELSE LET q == Moved(el, p) IN [q EXCEPT !.fz = @ \/ (q.on /\ Far(q))]
\* bunches at the entrance of every element and at the end of the ring
RECURSIVE Along(_, _, _)
Along(ring, k, b) == IF k > Len(ring) THEN <<b>> ELSE <<b>> \o Along(ring, k + 1, [j \in DOMAIN b |-> Pass(ring[k], b[j])])
RECURSIVE Turns(_, _, _)
Turns(ring, n, b) == IF n = 0 THEN <<>> ELSE LET a == Along(ring, 1, b) IN <<a>> \o Turns(ring, n - 1, a[Len(ring) + 1])
Bunch(z) == [j \in 1..Len(z) |-> [on |-> TRUE, fz |-> FALSE, v |-> z[j]]]

Alive(b) == {j \in DOMAIN b : b[j].on}
Fuzzy(b) == \E j \in DOMAIN b : b[j].fz
RECURSIVE SumC(_, _, _)
SumC(b, S, c) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN b[j].v[c] + SumC(b, S \ {j}, c)
\* the loss criterion: n of m particles arrive, lost in 1/16
Lost(n, m, lostat) == n = 0 \/ 16 * n < (16 - lostat) * m
Over(n, m, lostat) == 16 * n > (16 - lostat) * m

\* one BPM on one bunch: mean position of what arrives, through the BPM's errors
\* e = [c, s, den, off, cal]: cosine and sine of the total roll, total offset, calibration error
Rot(e, x, y) == <<(e.c * x - e.s * y) \div e.den, (e.s * x + e.c * y) \div e.den>>
Seen(e, x, y) == LET r == Rot(e, x, y) IN [d \in 1..2 |-> ((r[d] - e.off[d]) * (64 + e.cal[d])) \div 64]
One(b, e, lostat) ==
  LET S == Alive(b)
      n == Cardinality(S)
  IN IF Lost(n, Cardinality(DOMAIN b), lostat) THEN [has |-> FALSE, n |-> 0, r |-> <<0, 0>>]
     ELSE [has |-> TRUE, n |-> n, r |-> Seen(e, SumC(b, S, 1) \div n, SumC(b, S, 3) \div n)]

\* weighted mean of a set of [has, n, r] (n: weight)
RECURSIVE SumN(_, _)
SumN(s, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN s[j].n + SumN(s, S \ {j})
RECURSIVE SumW(_, _, _)
SumW(s, S, d) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN s[j].n * s[j].r[d] + SumW(s, S \ {j}, d)
Has(s) == {j \in DOMAIN s : s[j].has}
Mean(s) == LET H == Has(s) IN
  IF H = {} THEN [has |-> FALSE, n |-> 0, r |-> <<0, 0>>]
  ELSE [has |-> TRUE, n |-> SumN(s, H), r |-> [d \in 1..2 |-> SumW(s, H, d) \div SumN(s, H)]]
\* largest effect of noise (given in 2^-20, twice the level, divided by the transmission n / m) on such a mean: every shot contributes
\* n * noise * m / n, so the mean moves by at most (number of shots) * noise * m / (sum of n)
NoiseOf(s, noise2, m) == IF Has(s) = {} THEN 0 ELSE (Cardinality(Has(s)) * noise2 * m) \div SumN(s, Has(s)) + 1
=============================================================================
