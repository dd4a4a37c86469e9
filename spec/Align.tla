------------------------------- MODULE Align -------------------------------
(* A displaced and rotated element acts on a particle like the element in its  *)
(* place acts on the oppositely moved particle.                                 *)
(*   particle z : <<x, px, y, py>> in 1e-9                                       *)
(*   d : displacement <<dx, dy, dz>> in 1e-6 m                                    *)
(*   w : small rotation <<pitch, yaw, roll>> around the x, y, z axis in 1e-6      *)
(*   g : geometry of the element [c, s, den, rx, rz]: the exit frame is turned    *)
(*       by the bending angle with cosine c/den and sine s/den, the exit point    *)
(*       is at rx, rz (1e-3 m) in the entrance frame                               *)
(*   big : exact roll around the axis with cosine big.c/big.den, sine big.s/big.den *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
\* a * b / 10^6 without overflow
MulM(a, b) == (a * (b \div 1000)) \div 1000 + (a * (b % 1000)) \div 1000000
\* small motion (displacement d, rotation w) of a frame: coordinates in the moved frame
Into(z, d, w) ==
  LET x == z[1] - 1000 * d[1] + MulM(d[3], z[2]) + MulM(w[3], z[3] - 1000 * d[2])      \* the roll is around the displaced axis
      y == z[3] - 1000 * d[2] + MulM(d[3], z[4]) - MulM(w[3], z[1] - 1000 * d[1])
      px == z[2] - 1000 * w[2] + MulM(w[3], z[4])
      py == z[4] + 1000 * w[1] - MulM(w[3], z[2])
  IN <<x, px, y, py>>
\* motion of the exit frame of the same rigid element; results in 1e-9
ExitD(d, w, g) ==
  LET ex == 1000 * d[1] + w[2] * g.rz
      ey == 1000 * d[2] + w[3] * g.rx - w[1] * g.rz
      ez == 1000 * d[3] - w[2] * g.rx
  IN <<(g.c * ex + g.s * ez) \div g.den, ey, (g.c * ez - g.s * ex) \div g.den>>
ExitW(w, g) == <<(g.c * w[1] + g.s * w[3]) \div g.den, w[2], (g.c * w[3] - g.s * w[1]) \div g.den>>
\* back out of the moved exit frame (d in 1e-9 here, w in 1e-6)
Out(z, d, w) ==
  LET px == z[2] + 1000 * w[2] - MulM(w[3], z[4])
      py == z[4] - 1000 * w[1] + MulM(w[3], z[2])
      dz == d[3] \div 1000
  IN <<z[1] + d[1] - MulM(w[3], z[3]) - MulM(dz, px), px,
       z[3] + d[2] + MulM(w[3], z[1]) - MulM(dz, py), py>>
\* exact roll by any angle of a straight element, around its own (displaced) axis
Turn(z, b) == <<(b.c * z[1] + b.s * z[3]) \div b.den, (b.c * z[2] + b.s * z[4]) \div b.den,
                (b.c * z[3] - b.s * z[1]) \div b.den, (b.c * z[4] - b.s * z[2]) \div b.den>>
Back(z, b) == Turn(z, [b EXCEPT !.s = -b.s])
\* what the element in its place sees, and what comes back out, for the two families of misalignment
Enter(m, z) == IF m.big.s = 0 /\ m.big.c = m.big.den THEN Into(z, m.d, m.w) ELSE Turn(Into(z, m.d, <<0, 0, 0>>), m.big)
Leave(m, z) == IF m.big.s = 0 /\ m.big.c = m.big.den THEN Out(z, ExitD(m.d, m.w, m.g), ExitW(m.w, m.g))
               ELSE Out(Back(z, m.big), ExitD(m.d, <<0, 0, 0>>, m.g), <<0, 0, 0>>)
\* straight flight over a length (1e-3 m)
Fly(z, len) == <<z[1] + MulM(len, 1000 * z[2]), z[2], z[3] + MulM(len, 1000 * z[4]), z[4]>>
NearZ(u, v, tol) == \A k \in 1..4 : Abs(u[k] - v[k]) <= tol
=============================================================================
