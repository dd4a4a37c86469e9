-------------------------------- MODULE Model --------------------------------
(* What correctors and cavities do to the beam of an error-free linear machine:  *)
(* response of every BPM and turn to a kick, and the model lattice.              *)
(*   ring : [ty, L, k, g] as in Beam, and ty "cm" (drift L/2, kick, drift L/2)    *)
EXTENDS Beam
BIG == 262144     \* 2^18
Kicked(p, el, kick) == [p EXCEPT !.v = Thin(@, <<el.k[1] - kick[1], el.k[2] + kick[2]>>, el.g)]
MPass(el, p, kick) ==
  CASE el.ty = "drift" -> [p EXCEPT !.v = Drift(@, el.L)]
    [] el.ty = "thin" -> Kicked(p, el, kick)
    [] el.ty = "cm" -> LET a == [p EXCEPT !.v = Drift(@, el.L \div 2)]
                           b == Kicked(a, el, kick)
                       IN [b EXCEPT !.v = Drift(@, el.L \div 2)]
    [] OTHER -> p
RECURSIVE MAlong(_, _, _, _, _)
MAlong(ring, k, p, cm, kick) == IF k > Len(ring) THEN <<p>> ELSE <<p>> \o MAlong(ring, k + 1, MPass(ring[k], p, IF k = cm THEN kick ELSE <<0, 0>>), cm, kick)
RECURSIVE MTurns(_, _, _, _, _)
MTurns(ring, n, p, cm, kick) == IF n = 0 THEN <<>> ELSE LET a == MAlong(ring, 1, p, cm, kick) IN <<a>> \o MTurns(ring, n - 1, a[Len(ring) + 1], cm, kick)
Still(ring) == [k \in DOMAIN ring |-> [ring[k] EXCEPT !.k = <<0, 0>>]]
\* rows in reading order: x of every turn (BPMs in order), then y; 2^-16 m/rad
Rows(bord, T, tr) == LET nb == Len(bord) IN [r \in 1..(2 * T * nb) |->
    LET p == (r - 1) \div (T * nb)
        q == (r - 1) % (T * nb)
        tt == q \div nb + 1
        b == bord[(q % nb) + 1]
    IN tr[tt][b].v[2 * p + 1]]
Zero == [on |-> TRUE, fz |-> FALSE, v |-> <<0, 0, 0, 0>>]
Column(ring, bord, T, cm, plane) ==
  LET R == Still(ring)
      rows == Rows(bord, T, MTurns(R, T, Zero, cm, IF plane = 1 THEN <<BIG, 0>> ELSE <<0, BIG>>))
  IN [r \in DOMAIN rows |-> rows[r] \div 4]
\* response to the injected beam position (x, px, y, py): needed where the beam follows the frequency
FromInj(ring, bord, T, z) == Rows(bord, T, MTurns(Still(ring), T, [Zero EXCEPT !.v = z], 0, <<0, 0>>))
\* the model lattice element: setpoints without dipole components, design otherwise
ModelPoly(sp) == [n \in DOMAIN sp |-> IF n = 1 THEN 0 ELSE sp[n]]
=============================================================================
