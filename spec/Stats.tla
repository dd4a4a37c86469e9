-------------------------------- MODULE Stats --------------------------------
(* Weighted statistics. Values are integers in cells of a table, an error 2^-k     *)
(* gives the weight 4^k, missing cells do not count at all. Every statistic is a    *)
(* quotient of integers, so that it is decided by cross multiplication.             *)
EXTENDS Integers, Sequences, FiniteSets
ABS(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == ABS(a - b) <= tol
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOver(S \ {c}, f)

\* the cells averaged together: everything, each column (axis 0) or each row (axis 1)
Rows(st) == DOMAIN st.d
Cols(st) == DOMAIN st.d[1]
Groups(st) == CASE st.axis = 2 -> <<Rows(st) \X Cols(st)>>
                [] st.axis = 0 -> [c \in Cols(st) |-> Rows(st) \X {c}]
                [] OTHER -> [r \in Rows(st) |-> {r} \X Cols(st)]
Given(st, G) == {c \in G : ~st.miss[c[1]][c[2]]}
\* weights only count if errors are given and every given value has a proper one
Usable(st) == st.weighted /\ \A c \in Given(st, Rows(st) \X Cols(st)) : st.k[c[1]][c[2]] >= 0
Four(n) == CASE n = 0 -> 1 [] n = 1 -> 4 [] n = 2 -> 16 [] OTHER -> 64
W(st, c) == IF Usable(st) THEN Four(st.k[c[1]][c[2]]) ELSE 1
D(st, c) == st.d[c[1]][c[2]]
SumW(st, S) == SumOver(S, [c \in S |-> W(st, c)])
SumWW(st, S) == SumOver(S, [c \in S |-> W(st, c) * W(st, c)])
SumWD(st, S) == SumOver(S, [c \in S |-> W(st, c) * D(st, c)])
SumWDD(st, S) == SumOver(S, [c \in S |-> W(st, c) * D(st, c) * D(st, c)])
\* the effective number of values is (sum w)^2 / sum w^2, at least two
Many(st, S) == SumW(st, S) * SumW(st, S) > 2 * SumWW(st, S)
\* squared error of the mean's spread: variance about the mean (and the errors' own contribution), corrected for the sample size
Spread(st, S) == SumW(st, S) * SumWDD(st, S) - SumWD(st, S) * SumWD(st, S) + (IF Usable(st) THEN SumW(st, S) ELSE 0)
ErrNum(st, S) == IF Many(st, S) THEN Spread(st, S) ELSE 2 * Spread(st, S)
ErrDen(st, S) == IF Many(st, S) THEN SumW(st, S) * SumW(st, S) - SumWW(st, S) ELSE SumW(st, S) * SumW(st, S)
\* Student's factor for one sigma of 2, 3, ... values (in 1/4096)
TValues == <<7526, 5412, 4902, 4676, 4549, 4467, 4410>>
=============================================================================
