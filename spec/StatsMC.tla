------------------------------- MODULE StatsMC -------------------------------
(* The weighted statistics as such: a mean lies between its values and follows a    *)
(* common shift, missing cells are as good as absent, equal errors do not matter,   *)
(* the effective number of values is at most their number.                          *)
EXTENDS Stats, TLC
CONSTANTS N, MaxD
VARIABLES st
Init == st \in {[d |-> <<dd>>, k |-> <<kk>>, miss |-> <<mm>>, axis |-> 2, weighted |-> w] :
                 dd \in [1..N -> -MaxD..MaxD], kk \in [1..N -> {0, 1, 2}], mm \in [1..N -> BOOLEAN], w \in BOOLEAN}
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
G == Given(st, {1} \X (1..N))
Between == G # {} => \A s \in {-1, 1} : \E c \in G : s * SumWD(st, G) <= s * D(st, c) * SumW(st, G)
Shifted == LET s2 == [st EXCEPT !.d = <<[j \in 1..N |-> st.d[1][j] + 3]>>]
           IN SumWD(s2, G) = SumWD(st, G) + 3 * SumW(st, G) /\ ErrNum(s2, G) = ErrNum(st, G)
Absent == \A j \in 1..N : st.miss[1][j] =>
            LET s2 == [st EXCEPT !.d[1][j] = 0, !.k[1][j] = 0] IN SumWD(s2, G) = SumWD(st, G) /\ SumW(s2, G) = SumW(st, G) /\ ErrNum(s2, G) = ErrNum(st, G)
Equal == G # {} /\ (\A c, e \in G : st.k[1][c[2]] = st.k[1][e[2]]) =>
            SumWD(st, G) * Cardinality(G) = SumOver(G, [c \in G |-> D(st, c)]) * SumW(st, G)
Fewer == SumW(st, G) * SumW(st, G) <= Cardinality(G) * SumWW(st, G)
Positive == G # {} => ErrNum(st, G) >= 0 /\ ErrDen(st, G) > 0
=============================================================================
