------------------------------- MODULE FitMC -------------------------------
(* The algebra of Fit: the regularised pseudo-inverse maps every retained mode    *)
(* back and everything else to zero; scaled drifts add up; a straight beam is      *)
(* found from its ends.                                                            *)
EXTENDS Fit, TLC
CONSTANTS DEEP
VARIABLES f, cc, b
vars == <<f, cc, b>>
\* orthogonal columns of integers, length D each
I2 == <<<<1, 0>>, <<0, 1>>>>
S2 == <<<<0, -1>>, <<1, 0>>>>
H2 == <<<<1, 1>>, <<1, -1>>>>                     \* squared length 2
Bases == {[u |-> I2, n |-> 1], [u |-> S2, n |-> 1], [u |-> H2, n |-> 2]}
SIG == IF DEEP THEN {0, 1, 2, 4, 8, 16} ELSE {0, 1, 4, 16}
Pinvs == {[u |-> x.u, v |-> y.u, sig |-> <<s1, s2>>, al |-> al, damp |-> dm, mn |-> 2, rem |-> rem, D |-> 1, nu |-> x.n, nv |-> y.n] :
            x \in Bases, y \in Bases, s1 \in SIG, s2 \in SIG, al \in {0, 2, 4}, dm \in {1, 4}, rem \in 0..2}
Lengths == {0, 3, 8}
Circs == {[old |-> <<a, c, e>>, dr |-> <<x, y, TRUE>>, goal |-> g] : a \in Lengths, c \in {4, 8}, e \in {8, 16}, x \in BOOLEAN, y \in BOOLEAN, g \in {200, 400, 512}}
Beams == {[z |-> <<x, px, y, py>>, kicks |-> ks, S |-> s] : x \in {0, 64}, px \in {-8, 16}, y \in {32}, py \in {0, 24}, s \in {16, 40},
            ks \in {<<>>, <<<<8, 8, -16>>>>, <<<<0, 8, 0>>, <<16, -24, 8>>>>}}
None == [k \in {} |-> 0]
Init == \/ f \in {p \in Pinvs : p.sig[1] # p.sig[2] \/ p.sig[1] = 0} /\ cc = None /\ b = None
        \/ f = None /\ cc \in Circs /\ b = None
        \/ f = None /\ cc = None /\ b \in Beams
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Kp(k) == Kept(f.sig, k, f.mn - f.rem)
\* the pseudo-inverse applied to mode k of the response (sum over its entries)
Out(i, k) == PinvAt(f, i, 1) * f.u[1][k] + PinvAt(f, i, 2) * f.u[2][k]
Modes == f # None =>
   /\ Cardinality({k \in 1..2 : Kp(k)}) = MIN(2 - f.rem, Cardinality({k \in 1..2 : f.sig[k] > 0}))
   /\ \A k, j \in 1..2 : Kp(k) /\ ~Kp(j) => f.sig[k] > f.sig[j]
   /\ \A i, k \in 1..2 : Near(Out(i, k), IF Kp(k) THEN f.nu * f.v[i][k] * Inverse(f.sig[k], f.al, f.damp) ELSE 0, 2)
\* without regularisation a retained mode comes back with its full strength (sig is in quarters, damp = 4)
Exact == f # None /\ f.al = 0 /\ f.damp = 4 => \A k \in 1..2 : Kp(k) => Near(Inverse(f.sig[k], 0, 4) * f.sig[k], 4 * 65536, f.sig[k])
Weaker == f # None => \A k \in 1..2 : Kp(k) => Inverse(f.sig[k], f.al, f.damp) <= Inverse(f.sig[k], 0, f.damp)
\* drifts of total length D scaled by (D + goal - C) / D
D(q) == Sum([k \in DOMAIN q.old |-> IF q.dr[k] THEN q.old[k] ELSE 0])
New(q, k) == IF q.dr[k] THEN q.old[k] * (16 * D(q) + q.goal - 16 * Sum(q.old)) ELSE 16 * D(q) * q.old[k]      \* times 16 D
Total == cc # None => Sum([k \in DOMAIN cc.old |-> New(cc, k)]) = D(cc) * cc.goal
Ratio == cc # None => \A k, j \in DOMAIN cc.old : cc.dr[k] /\ cc.dr[j] => New(cc, k) * cc.old[j] = New(cc, j) * cc.old[k]
\* a straight beam is linear in its launch and its kicks
Linear == b # None => LET e == AtEnd(b.z, b.kicks, b.S)  o == AtEnd(<<0, 0, 0, 0>>, b.kicks, b.S)  l == AtEnd(b.z, <<>>, b.S)
                      IN \A k \in 1..4 : e[k] = o[k] + l[k]
Back == b # None => LET e == AtEnd(b.z, b.kicks, b.S) IN
           /\ e[1] - (b.S * b.z[2]) \div 8 - b.z[1] = EndPos(b.kicks, 1, b.S)
           /\ b.kicks = <<>> => e[1] - (b.S * e[2]) \div 8 = b.z[1] /\ e[2] = b.z[2]
=============================================================================
