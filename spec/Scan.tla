-------------------------------- MODULE Scan --------------------------------
(* Scans: the grid scan of two quadrupole families for transmission, and the    *)
(* scans of an RF parameter against the turn-by-turn energy drift.               *)
EXTENDS Integers, Sequences, FiniteSets
ABS(a) == IF a < 0 THEN -a ELSE a
MIN(a, b) == IF a < b THEN a ELSE b
MAX(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------- grid scan *)
\* 512 (cos, sin) of multiples of the golden angle
Trig == <<<<512, 0>>, <<-378, -346>>, <<45, 510>>, <<312, -406>>, <<-504, 89>>, <<432, 275>>, <<-133, -494>>, <<-236, 454>>, <<481, -176>>, <<-473, -195>>,
  <<217, 464>>, <<153, -489>>, <<-443, 257>>, <<500, 110>>, <<-294, -419>>, <<-66, 508>>, <<392, -330>>, <<-512, -21>>, <<363, 361>>, <<-24, -511>>,
  <<-328, 393>>, <<507, -68>>, <<-420, -292>>, <<112, 500>>, <<255, -444>>, <<-488, 156>>, <<465, 215>>, <<-198, -472>>, <<-173, 482>>, <<453, -238>>,
  <<-495, -131>>, <<277, 431>>, <<87, -505>>, <<-405, 313>>, <<510, 42>>, <<-348, -376>>, <<2, 512>>, <<344, -379>>, <<-510, 47>>, <<408, 310>>,
  <<-92, -504>>, <<-273, 433>>, <<494, -135>>, <<-456, -234>>, <<178, 480>>, <<193, -474>>, <<-463, 219>>, <<489, 151>>, <<-259, -442>>, <<-107, 501>>,
  <<417, -297>>, <<-508, -63>>, <<332, 390>>, <<19, -512>>, <<-359, 365>>, <<511, -26>>, <<-395, -326>>, <<71, 507>>, <<290, -422>>, <<-499, 115>>>>
\* p is the integer next to r sqrt(i / (n - 1)) c / 512, up to the precision of the table
Next2(p, r, i, n, c) ==
  /\ p # 0 => (p > 0) = (c > 0)
  /\ LET lo == MAX(ABS(c) - 1, 0)
         hi == ABS(c) + 1
     IN /\ p # 0 => (2 * ABS(p) - 1) * (2 * ABS(p) - 1) * (n - 1) * 262144 <= 4 * r * r * i * hi * hi
        /\ 4 * r * r * i * lo * lo <= (2 * ABS(p) + 1) * (2 * ABS(p) + 1) * (n - 1) * 262144
\* positions (from 1) of the i-th (from 0) of n points of the spiral on an axis with N values
Spot(N, i, n, axis) == LET r == N \div 2 IN {MIN(MAX(p + r, 0), N - 1) + 1 : p \in {p \in (-r)..r : Next2(p, r, i, n, Trig[i + 1][axis])}}
\* a try: [f, turns, frac]
Stops(h, full, target) == h # <<>> /\ ~full /\ h[Len(h)].frac >= target
BestOf(h) ==
  LET D == DOMAIN h IN
  IF \E k \in D : h[k].frac > 0 THEN {k \in D : \A j \in D : h[j].frac <= h[k].frac}
  ELSE {k \in D : \A j \in D : h[j].turns <= h[k].turns}
Nothing(h) == \A k \in DOMAIN h : h[k].turns = 0 /\ h[k].frac = 0
\* some transmission that does not count as a turn: giving up and using it are both fine
Murky(h) == ~Nothing(h) /\ \A k \in DOMAIN h : h[k].turns = 0
\* survivors after every turn, given the turn (from 1) in which each particle is lost (0: never)
After(lost, tt) == Cardinality({j \in DOMAIN lost : lost[j] = 0 \/ lost[j] > tt})
\* turns with more than (1 - limit / 16) of the particles left
TurnsOf(lost, T, limit) == Cardinality({tt \in 1..T : After(lost, tt) * 16 > Len(lost) * (16 - limit)})

(* --------------------------------------------------------------- RF scans *)
Step(lo, hi, n, k) == lo + ((hi - lo) * (k - 1)) \div (n - 1)
Usable(h) == Cardinality({k \in DOMAIN h : h[k] >= 3})
=============================================================================
