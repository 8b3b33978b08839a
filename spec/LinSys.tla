-------------------------------- MODULE LinSys --------------------------------
(* Regular linear systems of any size with an integer solution (C06, C08):     *)
(* start from a permutation matrix and apply elementary row operations, which  *)
(* keep the determinant at 1 or -1.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxEntry

VARIABLES n, mat, sol, ops, fin
vars == <<n, mat, sol, ops, fin>>

Pick(S) == RandomElement(S)
Row(i, m) == [j \in 1..m |-> IF j = i THEN 1 ELSE 0]
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + Dot(a, b, i - 1)
Rhs == [i \in 1..n |-> Dot(mat[i], sol, n)]
\* Laplace expansion, for the check of det on small sizes
RECURSIVE Det(_, _)
Minor(M, c) == [i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE DetSum(_, _)
DetSum(M, c) == IF c > Len(M) THEN 0 ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] * Det(Minor(M, c), 0) + DetSum(M, c + 1)
Det(M, z) == IF Len(M) = 1 THEN M[1][1] ELSE DetSum(M, 1)

RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET e == Pick(S) IN <<e>> \o RandPerm(S \ {e})

Init == n = 0 /\ mat = <<>> /\ sol = <<>> /\ ops = 0 /\ fin = FALSE
Size == /\ n = 0
        /\ \E m \in {Pick(1..MaxN)} : \E p \in {RandPerm(1..m)} :
              /\ n' = m
              /\ mat' = [i \in 1..m |-> Row(p[i], m)]
              /\ sol' = [i \in 1..m |-> Pick(-6..6)]
        /\ ops' = 0 /\ UNCHANGED fin
AddRow == /\ n > 1
          /\ \E i \in {Pick(1..n)} : \E j \in {Pick((1..n) \ {i})}, c \in {Pick({-2, -1, 1, 1, 2})} :
                LET r == [q \in 1..n |-> mat[i][q] + c * mat[j][q]]
                IN mat' = IF \A q \in 1..n : Abs(r[q]) <= MaxEntry THEN [mat EXCEPT ![i] = r] ELSE mat
          /\ ops' = ops + 1 /\ UNCHANGED <<n, sol, fin>>
Next == /\ ~fin
        /\ IF n = 0 THEN Size
           ELSE IF n = 1 \/ ops >= 2 * n + 3
           THEN fin' = TRUE /\ PrintT("@@" \o ToJson([n |-> n, mat |-> mat, sol |-> sol, rhs |-> Rhs])) /\ UNCHANGED <<n, mat, sol, ops>>
           ELSE AddRow
Spec == Init /\ [][Next]_vars
Regular == n \in 1..4 => Abs(Det(mat, 0)) = 1
=============================================================================
