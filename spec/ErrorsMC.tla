------------------------------ MODULE ErrorsMC ------------------------------
(* Registering uncertainties and applying errors in any order: what is drawn     *)
(* depends on the present uncertainties only, whatever was drawn before; without  *)
(* uncertainties nothing is left of earlier draws; supports can always be drawn.   *)
EXTENDS Errors
CONSTANTS DEEP
VARIABLES sigma, val, n, sup, last
vars == <<sigma, val, n, sup, last>>
Keys == IF DEEP THEN {"a", "b"} ELSE {"a"}
M == IF DEEP THEN 4 ELSE 3
Empty == [x \in {} |-> 0]
Call == 32            \* two sigma
Sigmas == {[s |-> 0, c |-> -1], [s |-> 8, c |-> -1], [s |-> 8, c |-> 0], [s |-> 4, c |-> 48]}
Draws == {-26, -18, -14, -2, 0, 2, 14, 18, 26}
P0 == [kind |-> "Girder", a |-> 1, b |-> 2, L |-> 64, o0 |-> <<0, 0, 0>>, o1 |-> <<0, 0, 0>>, r |-> <<0, 0, 0>>]
SK(ord, what, k) == SupKey(P0, ord, what, k)
SupSig(ord, what, q) == [key \in {SK(ord, what, k) : k \in 0..2} |-> IF key = SK(ord, what, 0) THEN [s |-> 16 * q[1], c |-> -1]
                            ELSE IF key = SK(ord, what, 1) THEN [s |-> 16 * q[2], c |-> -1] ELSE [s |-> 16 * q[3], c |-> -1]]
Init == sigma = Empty /\ val = [k \in Keys |-> 0] /\ n = 0 /\ sup = P0 /\ last = "start"
Reg == /\ n < M /\ \E k \in Keys, sg \in Sigmas : sigma' = (k :> sg) @@ sigma /\ val' = [val EXCEPT ![k] = 0]
       /\ n' = n + 1 /\ last' = "reg" /\ UNCHANGED sup
RegSup == /\ n < M /\ \E ord \in {1, 2}, q \in {<<0, 0, 0>>, <<400, 200, 0>>} : \E what \in {"Offset", "Roll"} :
                (what = "Roll" => ord = 1 /\ q \in {<<0, 0, 0>>, <<400, 200, 0>>}) /\ sigma' = SupSig(ord, what, q) @@ sigma
          /\ n' = n + 1 /\ last' = "reg" /\ UNCHANGED <<val, sup>>
\* some point of the permitted region: offsets of both ends, roll; pitch and yaw follow
Offs == {<<0, 0, 0>>, <<700, 300, 0>>, <<-700, -300, 0>>, <<2000, 0, 0>>}
Hits(x) == [x EXCEPT !.r = <<x.r[1], x.o1[2] - x.o0[2], x.o1[1] - x.o0[1]>>]
Choice == {Hits([P0 EXCEPT !.o0 = a, !.o1 = e, !.r = <<r, 0, 0>>]) : a \in Offs, e \in Offs, r \in {0, 500, -3000}}
Apply == /\ n <= M
         /\ \E v \in [Keys -> Draws] :
               /\ \A k \in Keys : IF ~Has(sigma, k) THEN v[k] = val[k] ELSE IF sigma[k].s = 0 THEN v[k] = 0 ELSE Drawn(sigma[k], Call, v[k])
               /\ val' = v
         /\ sup' \in IF AnySup(sigma, sup) THEN {p \in Choice : SupOk(sigma, Call, p)} ELSE {sup}
         /\ n' = n + 1 /\ last' = "apply" /\ UNCHANGED sigma
Next == Reg \/ RegSup \/ Apply
Spec == Init /\ [][Next]_vars
Bounded == last = "apply" => \A k \in Keys : Has(sigma, k) => 16 * Abs(val[k]) <= Cut(sigma[k].c, Call) * sigma[k].s + 32
\* an own cutoff of zero or an uncertainty of zero leaves (almost) nothing
Nothing == last = "apply" => \A k \in Keys : Has(sigma, k) /\ (sigma[k].s = 0 \/ sigma[k].c = 0) => Abs(val[k]) <= 2
Unregistered == \A k \in Keys : ~Has(sigma, k) => val[k] = 0
SupGone == last = "apply" /\ AnySup(sigma, P0) /\ (\A key \in DOMAIN sigma : key \notin Keys => sigma[key].s = 0) => \A k \in 1..3 : Abs(sup.o0[k]) <= 4 /\ Abs(sup.o1[k]) <= 4 /\ Abs(sup.r[k]) <= 8
SupBound == last = "apply" => \A k \in 1..3 : Abs(sup.o0[k] + sup.o1[k]) <= 2 * (2 * 400 + 8)
Drawable == n <= M => ENABLED Apply
=============================================================================
