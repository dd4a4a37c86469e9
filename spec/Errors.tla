------------------------------- MODULE Errors -------------------------------
(* Uncertainties and the errors drawn from them.                               *)
(*   sigma : uncertainty per error (key -> [s, c]), s in 2^-24, c = own cutoff *)
(*           in 1/16 or -1                                                      *)
(*   val   : present error per key, in 2^-24                                   *)
(*   sup   : support structures, sequence of records                           *)
(*           [kind, a, b, L, o0, o1, r] (offsets and rolls in 2^-20, L in 2^-6)  *)
(* A draw z is identified by an identity number that is the same exactly when  *)
(* the normalised draws agree to 12 digits.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
NOISE == {"Noise", "NoiseCO"}
Cut(own, call) == IF own >= 0 THEN own ELSE call

\* draws allowed for one error
Drawn(sg, call, v) == 16 * Abs(v) <= Cut(sg.c, call) * sg.s + 32
Bound16(sg, call) == Cut(sg.c, call) * sg.s            \* sixteen times the bound

(* ------------------------------------------------------------- supports *)
SupKey(p, ord, what, k) == "SUP:" \o p.kind \o ":" \o ToString(ord) \o ":" \o what \o ":" \o ToString(k)
Has(sigma, key) == key \in DOMAIN sigma
Two(sigma, p) == Has(sigma, SupKey(p, p.b, "Offset", 0))
AnySup(sigma, p) == Has(sigma, SupKey(p, p.a, "Offset", 0)) \/ Has(sigma, SupKey(p, p.a, "Roll", 0))
\* bound in 2^-20 times 16; sigma is stored in 2^-24
B20(sigma, call, key) == IF ~Has(sigma, key) THEN 0 ELSE (Bound16(sigma[key], call) \div 16) + 16
In16(sigma, call, key, v) == 16 * Abs(v) <= B20(sigma, call, key) + 32
Slope(p, k, ang) == Abs((p.o1[k] - p.o0[k]) * 64 - ang * p.L) <= 256 + 2 * p.L + Abs(ang)
SupOk(sigma, call, p) ==
  LET off(k) == SupKey(p, p.a, "Offset", k - 1)
      offb(k) == SupKey(p, p.b, "Offset", k - 1)
      roll(k) == SupKey(p, p.a, "Roll", k - 1)
      given(k) == Has(sigma, roll(k)) /\ sigma[roll(k)].s # 0
  IN /\ IF given(1) THEN In16(sigma, call, roll(1), p.r[1]) ELSE p.r[1] = 0
     /\ Slope(p, 2, p.r[2])                       \* pitch is the vertical slope
     /\ Slope(p, 1, p.r[3])                       \* yaw is the horizontal slope
     /\ \A k \in 1..3 :
          IF Two(sigma, p) THEN In16(sigma, call, off(k), p.o0[k]) /\ In16(sigma, call, offb(k), p.o1[k])
          ELSE /\ In16(sigma, call, off(k), (p.o0[k] + p.o1[k]) \div 2)     \* the centre carries the drawn offset
               /\ (k = 3 => p.o0[3] = p.o1[3])
               /\ (k = 2 => IF given(2) THEN In16(sigma, call, roll(2), p.r[2]) ELSE Abs(p.o0[2] - p.o1[2]) <= 2)
               /\ (k = 1 => IF given(3) THEN In16(sigma, call, roll(3), p.r[3]) ELSE Abs(p.o0[1] - p.o1[1]) <= 2)
=============================================================================
