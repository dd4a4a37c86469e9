------------------------------- MODULE Steer -------------------------------
(* The trajectory correction protocols as a machine observed at its injections: *)
(* what may happen after each reading (another correction step, wiggling,        *)
(* success, failure), and by how much correctors move in a step.                 *)
(*   readings in 2^-26, kicks in 2^-30, response factors 2^-12                  *)
(*   c : configuration [alg, T, nb, bord, cmh, cmv, limh, limv, P, ref, maxsteps, eps, target, nbp]  *)
(*   s : progress [hist, rms, k, mode, lim, best, wig]                             *)
(*       hist reach of the readings the loop has seen, rms of these readings,      *)
(*       k correction steps taken, mode go or wig, wig reaches while wiggling      *)
EXTENDS Integers, Sequences, FiniteSets
NAN == 1777777777
ABS(a) == IF a < 0 THEN -a ELSE a
CONSTANTS NREPRO, NWIG
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Last(q) == q[Len(q)]
Full(c) == c.T * c.nb
Repro(h, n) == Len(h) >= n /\ \A j \in (Len(h) - n + 1)..Len(h) : h[j] = Last(h)

(* ------------------------------------------------------------- convergence *)
\* spread of the last n root-mean-square readings, both planes
Window(rms, n) == SubSeq(rms, Len(rms) - n + 1, Len(rms))
Spread(w, S) == LET v == {w[j][d] : j \in DOMAIN w, d \in S}
                IN (CHOOSE a \in v : \A b \in v : b <= a) - (CHOOSE a \in v : \A b \in v : a <= b)
\* certainly stable: everything within the tolerance; possibly stable: a spread of more than
\* 2 sqrt(n) eps in one plane has a standard deviation above eps (n <= 5 : 5 eps is safe, twice that when pooled)
SureStable(c, rms, n) == Len(rms) >= n /\ Spread(Window(rms, n), {1, 2}) <= c.eps \div 2
MayStable(c, rms, n) == Len(rms) >= n /\ \A d \in {1, 2} : Spread(Window(rms, n), {d}) <= 5 * c.eps + 16
Reached(c, s) == c.target > 0 /\ Last(s.rms)[1] < c.target + 8 /\ Last(s.rms)[2] < c.target + 8

(* ---------------------------------------------- what may follow a reading *)
\* stitching needs some beam in its second turn before it can start
Need(c, s) == IF c.alg = "stitch" /\ s.k = 0 THEN c.nb + c.nbp ELSE Last(s.hist) + 1
May(c, s) ==
  IF s.mode = "wig" THEN
     LET spent == c.alg = "first" /\ s.k >= c.maxsteps
         sure == Repro(s.wig, 8) /\ Last(s.wig) >= s.lim
     IN (IF sure THEN {} ELSE {"wig"}) \cup (IF sure /\ ~spent THEN {} ELSE {"raise"}) \cup (IF s.best >= s.lim /\ ~spent THEN {"step"} ELSE {})
  ELSE LET r == Last(s.hist) IN
  CASE c.alg = "first" ->
         IF s.k >= 1 /\ Repro(s.hist, NREPRO) /\ r = Full(c) THEN {"ret"}
         ELSE IF Repro(s.hist, NWIG) /\ s.k >= 1 THEN {"wig"} \cup (IF s.k >= c.maxsteps \/ r = 0 THEN {"raise"} ELSE {})
         ELSE IF r = 0 \/ s.k >= c.maxsteps THEN {"raise"}
         ELSE {"step"}
    [] c.alg = "stitch" ->
         IF s.k = 0 /\ r < c.nb THEN {"raise"}
         ELSE IF s.k = 0 /\ r < c.nb + c.nbp THEN {"wig"}
         ELSE IF s.k >= 1 /\ Repro(s.hist, NREPRO) /\ r = Full(c) THEN {"ret"}
         ELSE IF s.k >= c.maxsteps THEN {"raise"}
         ELSE {"step"}
    [] c.alg = "balance" ->
         IF r < Full(c) THEN {"raise"}
         ELSE (IF s.k >= 1 /\ MayStable(c, s.rms, NREPRO) THEN {"ret"} ELSE {})
              \cup (IF s.k >= 1 /\ SureStable(c, s.rms, NREPRO) THEN {} ELSE IF s.k >= c.maxsteps THEN {"raise"} ELSE {"step"})
    [] c.alg = "correct" ->
         IF r < Full(c) THEN {"raise"}
         ELSE LET n == MinI(NREPRO, c.maxsteps) IN
              (IF s.k >= 1 /\ (MayStable(c, s.rms, NREPRO) \/ (Reached(c, s) /\ MayStable(c, s.rms, n))) THEN {"ret"} ELSE {})
              \cup (IF s.k >= c.maxsteps
                    THEN IF c.maxsteps = 1 THEN {"ret"} ELSE (IF MayStable(c, s.rms, n) THEN {"ret"} ELSE {}) \cup (IF SureStable(c, s.rms, n) THEN {} ELSE {"raise"})
                    ELSE IF s.k >= 1 /\ SureStable(c, s.rms, NREPRO) THEN {} ELSE {"step"})

\* a reading taken after a correction step / while wiggling
Stepped(c, s, r, m) ==
  LET h == IF s.mode = "wig" THEN Append(s.hist, Last(s.wig)) ELSE s.hist
  IN [s EXCEPT !.hist = Append(h, r), !.rms = Append(@, m), !.k = @ + 1, !.mode = "go", !.wig = <<>>]
Wiggled(c, s, r) ==
  IF s.mode = "wig" THEN [s EXCEPT !.best = MaxI(@, r), !.wig = Append(@, r)]
  ELSE [s EXCEPT !.mode = "wig", !.lim = Need(c, s), !.best = r, !.wig = <<r>>]
Start(r, m) == [hist |-> <<r>>, rms |-> <<m>>, k |-> 0, mode |-> "go", lim |-> 0, best |-> 0, wig |-> <<>>]
Furthest(s) == LET q == s.hist \o s.wig IN CHOOSE a \in {q[j] : j \in DOMAIN q} : \A j \in DOMAIN q : q[j] <= a
\* the reading a step starts from
Now(s) == IF s.mode = "wig" THEN Last(s.wig) ELSE Last(s.hist)

(* ------------------------------------------------------- size of the step *)
Val(a) == IF a = NAN THEN 0 ELSE a
\* deviation in row r (x of all turns, then y); unread: what to take where there is no reading, and whether the reference counts there
Dev(c, rd, r, refToo) ==
  LET p == (r - 1) \div Full(c) + 1
      k == ((r - 1) % Full(c)) + 1
      a == rd[p][k]
      first == k <= c.nb \/ c.alg \in {"first", "correct"}
      one == IF a = NAN /\ ~refToo THEN 0 ELSE Val(a) - c.ref[r]
      n == k - c.nb
      two == IF c.alg = "stitch" /\ n > c.nbp THEN 0 ELSE IF a = NAN \/ rd[p][n] = NAN THEN 0 ELSE a - rd[p][n]
  IN IF first THEN one ELSE two
RECURSIVE Dot(_, _, _, _, _)
Dot(c, rd, col, n, refToo) ==
  IF n = 0 THEN 0 ELSE (IF c.P[n][1] = col THEN c.P[n][3] * Dev(c, rd, c.P[n][2], refToo) ELSE 0) + Dot(c, rd, col, n - 1, refToo)
\* kick (2^-30) for column col: -(factor / 4096) * deviation * 16
Kick(c, rd, col, refToo) == -(Dot(c, rd, col, Len(c.P), refToo) \div 256)
Upstream(c, ord, reach) == reach > c.nb \/ c.alg # "first" \/ (reach >= 1 /\ ord <= c.bord[reach])
NoneUpstream(c, reach) == reach <= c.nb /\ (reach = 0 \/ (\A j \in DOMAIN c.cmh : c.cmh[j] > c.bord[reach]) \/ (\A j \in DOMAIN c.cmv : c.cmv[j] > c.bord[reach]))
Clip(a, lim) == IF lim > 0 /\ ABS(a) > lim THEN (IF a < 0 THEN -lim ELSE lim) ELSE a
=============================================================================
