------------------------------ MODULE Support ------------------------------
(* Support structures: which elements they carry and how they move them.       *)
(*   pos   : s-position of every element (1/8 m), ring length C                  *)
(*   str   : sequence of structures [kind, a, b, o0, o1, roll]                    *)
(*           a, b first and last element (1-based, a > b: across the injection    *)
(*           point); o0, o1 offsets of the end points wrt. what they stand on,    *)
(*           roll, all in 2^-20                                                    *)
EXTENDS Integers, Sequences, FiniteSets
KINDS == <<"Section", "Plinth", "Girder">>
TOL == 8
Abs(a) == IF a < 0 THEN -a ELSE a

Carries(st, k) == IF st.a <= st.b THEN st.a <= k /\ k <= st.b ELSE k >= st.a \/ k <= st.b
Of(str, kind) == {j \in 1..Len(str) : str[j].kind = kind}
\* distance from the beginning of a structure, in the direction of the beam
Dist(pos, C, st, k) == IF pos[k] - pos[st.a] < 0 \/ (k < st.a /\ st.a > st.b) THEN pos[k] - pos[st.a] + C ELSE pos[k] - pos[st.a]
Line(f1, f2, d, len) == f1 + ((f2 - f1) * d) \div len

\* total offset (component c) of element k standing on the first n kinds of structures
RECURSIVE Off(_, _, _, _, _, _)
Off(pos, C, str, n, c, k) ==
  IF n = 0 THEN 0
  ELSE LET on == {j \in Of(str, KINDS[n]) : Carries(str[j], k)}
       IN IF on = {} THEN Off(pos, C, str, n - 1, c, k)
          ELSE LET st == str[CHOOSE j \in on : TRUE]
                   f1 == Off(pos, C, str, n - 1, c, st.a) + st.o0[c]
                   f2 == Off(pos, C, str, n - 1, c, st.b) + st.o1[c]
               IN Line(f1, f2, Dist(pos, C, st, k), Dist(pos, C, st, st.b))
Offset(pos, C, str, k) == [c \in 1..3 |-> Off(pos, C, str, 3, c, k)]

RECURSIVE SumRoll(_, _)
SumRoll(str, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN str[j].roll + SumRoll(str, S \ {j})
Roll(str, k) == SumRoll(str, {j \in 1..Len(str) : Carries(str[j], k)})

\* the innermost structure carrying an element (0: none)
Inner(str, k) ==
  LET n == {m \in 1..3 : \E j \in Of(str, KINDS[m]) : Carries(str[j], k)}
  IN IF n = {} THEN 0
     ELSE LET m == CHOOSE x \in n : \A y \in n : y <= x IN CHOOSE j \in Of(str, KINDS[m]) : Carries(str[j], k)
Rank(kind) == CHOOSE m \in 1..3 : KINDS[m] = kind
\* its end points are not themselves moved by a structure standing on it
Clear(str, j) == \A l \in 1..Len(str) : Rank(str[l].kind) > Rank(str[j].kind) => ~Carries(str[l], str[j].a) /\ ~Carries(str[l], str[j].b)
\* rise and length of the innermost structure: pitch and yaw are rise / length
Rise(pos, C, str, j, c) == Off(pos, C, str, 3, c, str[j].b) - Off(pos, C, str, 3, c, str[j].a)
SlopeOk(pos, C, str, k, c, got) ==
  LET j == Inner(str, k) IN
  IF j = 0 THEN got = 0
  ELSE ~Clear(str, j) \/ (LET len == Dist(pos, C, str[j], str[j].b)
                          IN Abs(got * len - 8 * Rise(pos, C, str, j, c)) <= 8 * TOL + len)
Near(u, v) == Abs(u - v) <= TOL
=============================================================================
