------------------------------ MODULE Inverse ------------------------------
(* Inversion (C15). A machine that starts from the identity and applies row and *)
(* column operations, keeping the exact inverse beside the matrix; at the end the *)
(* matrix is given as it is, permuted, with rows and columns scaled by powers of  *)
(* two, or with a defect that makes it singular, or cut to a shape that is not     *)
(* square.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxOps, Lim, LimInv

VARIABLES n, A, I, ops, fin
vars == <<n, A, I, ops, fin>>

Pick(S) == RandomElement(S)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
\* matrices are flat sequences, row by row
Flat(k, f(_, _)) == TLCEval([x \in 1..(k * k) |-> f((x - 1) \div k + 1, ((x - 1) % k) + 1)])
At(X, i, j) == X[(i - 1) * n + j]
Ident(k) == Flat(k, LAMBDA i, j: IF i = j THEN 1 ELSE 0)
Times(X, Y) == Flat(n, LAMBDA i, j: SumTo([x \in 1..n |-> At(X, i, x) * At(Y, x, j)], n))
Transposed(X) == Flat(n, LAMBDA i, j: At(X, j, i))
Bounded(X, m) == \A x \in DOMAIN X : Abs(X[x]) <= m

Swap(i, p, q) == IF i = p THEN q ELSE IF i = q THEN p ELSE i
RowAdd(X, p, q, s) == Flat(n, LAMBDA i, j: IF i = p THEN At(X, i, j) + s * At(X, q, j) ELSE At(X, i, j))
ColAdd(X, p, q, s) == Flat(n, LAMBDA i, j: IF j = p THEN At(X, i, j) + s * At(X, i, q) ELSE At(X, i, j))
RowSwap(X, p, q) == Flat(n, LAMBDA i, j: At(X, Swap(i, p, q), j))
ColSwap(X, p, q) == Flat(n, LAMBDA i, j: At(X, i, Swap(j, p, q)))
RowNeg(X, p) == Flat(n, LAMBDA i, j: IF i = p THEN -At(X, i, j) ELSE At(X, i, j))
ColNeg(X, p) == Flat(n, LAMBDA i, j: IF j = p THEN -At(X, i, j) ELSE At(X, i, j))
\* (E A)^-1 = A^-1 E^-1: a row operation on A is the inverse column operation on A^-1, and the other way round
Op(k, p, q, s) ==
    CASE k = "radd" /\ p # q -> <<RowAdd(A, p, q, s), ColAdd(I, q, p, -s)>>
      [] k = "cadd" /\ p # q -> <<ColAdd(A, p, q, s), RowAdd(I, q, p, -s)>>
      [] k = "rswap" -> <<RowSwap(A, p, q), ColSwap(I, p, q)>>
      [] k = "cswap" -> <<ColSwap(A, p, q), RowSwap(I, p, q)>>
      [] k = "rneg" -> <<RowNeg(A, p), ColNeg(I, p)>>
      [] k = "transpose" -> <<Transposed(A), Transposed(I)>>
      [] OTHER -> <<A, I>>
Start == n = 0 /\ \E k \in {Pick(1..MaxN)} : n' = k /\ A' = Ident(k) /\ I' = Ident(k) /\ UNCHANGED <<ops, fin>>
Do == \E k \in {Pick({"radd", "radd", "cadd", "cadd", "rswap", "cswap", "rneg", "transpose"})}, p \in {Pick(1..n)}, q \in {Pick(1..n)}, s \in {Pick({-3, -2, -1, 1, 1, 2, 4})} :
        LET r == Op(k, p, q, s) IN
          /\ ops' = ops + 1 /\ UNCHANGED <<n, fin>>
          /\ IF Bounded(r[1], Lim) /\ Bounded(r[2], LimInv) THEN A' = r[1] /\ I' = r[2] ELSE UNCHANGED <<A, I>>

-----------------------------------------------------------------------------
(* A singular variant. The defects of size up to 4 give a determinant of exactly *)
(* zero in exact arithmetic; those of larger sizes survive elimination exactly.   *)
Defect(k, p, q, o) ==
    Flat(n, LAMBDA i, j:
      CASE k = "zero" -> 0
        [] k = "zero row" /\ i = p -> 0
        [] k = "zero column" /\ j = p -> 0
        [] k = "equal rows" /\ i = p -> At(A, q, j)
        [] k = "double row" /\ i = p -> -2 * At(A, q, j)
        [] k = "equal columns" /\ j = p -> At(A, i, q)
        [] k = "row sum" /\ i = p -> At(A, q, j) + At(A, o, j)
        [] k = "column sum" /\ j = p -> At(A, i, q) - 3 * At(A, i, o)
        [] OTHER -> At(A, i, j))
Kinds == {"zero row", "zero column", "zero"} \cup (IF n > 1 THEN {"equal rows", "double row"} ELSE {})
           \cup (IF n \in 2..4 THEN {"equal columns"} ELSE {}) \cup (IF n \in 3..4 THEN {"row sum", "column sum"} ELSE {})
Others(p) == IF n = 1 THEN {1} ELSE (1..n) \ {p}
RECURSIVE Det(_, _)
\* determinant by expansion along the first row, for the check below
Det(X, k) == IF k = 0 THEN 1
             ELSE SumTo([j \in 1..k |-> (IF j % 2 = 1 THEN 1 ELSE -1) * X[j] *
                           Det(TLCEval([x \in 1..((k - 1) * (k - 1)) |->
                              LET y == ((x - 1) % (k - 1)) + 1 IN X[((x - 1) \div (k - 1) + 1) * k + (IF y < j THEN y ELSE y + 1)]]), k - 1)], k)
Out(kind, m, r, c, inv, rs, cs) == [kind |-> kind, r |-> r, c |-> c, m |-> m, inv |-> inv, rs |-> rs, cs |-> cs]
Finish ==
    \E what \in {Pick({"plain", "scaled", "scaled", "singular", "shape"})}, p \in {Pick(1..n)} :
    \E q \in {Pick(Others(p))} : \E o \in {IF n > 2 THEN Pick((1..n) \ {p, q}) ELSE q}, k \in {Pick(Kinds)} :
    \* the unit of the whole matrix, and those of its rows and columns; a matrix of
    \* which only the size matters stays singular
    \E unit \in {IF Pick(1..2) = 1 THEN 0 ELSE Pick(-40..40)}, sc \in {what = "scaled" \/ (what = "singular" /\ n <= 4 /\ Pick(1..2) = 1)} :
    \E rs \in {[i \in 1..n |-> IF sc THEN unit + Pick(-8..8) ELSE 0]}, cs \in {[i \in 1..n |-> IF sc THEN Pick(-8..8) ELSE 0]} :
    \E r \in {Pick(1..n)}, c \in {Pick(1..n)} :
        /\ fin' = TRUE /\ UNCHANGED <<n, A, I, ops>>
        /\ CASE what \in {"plain", "scaled"} -> PrintT("@@" \o ToJson(Out("good", A, n, n, I, rs, cs)))
             [] what = "singular" -> /\ n <= 4 => Assert(Det(Defect(k, p, q, o), n) = 0, "not singular")
                                     /\ PrintT("@@" \o ToJson(Out(k, Defect(k, p, q, o), n, n, <<>>, rs, cs)))
             [] what = "shape" -> IF r = c THEN TRUE
                                  ELSE PrintT("@@" \o ToJson(Out("shape", [x \in 1..(r * c) |-> At(A, (x - 1) \div c + 1, ((x - 1) % c) + 1)], r, c, <<>>, rs, cs)))
Init == n = 0 /\ A = <<>> /\ I = <<>> /\ ops = 0 /\ fin = FALSE
Next == /\ ~fin
        /\ IF n = 0 THEN Start ELSE IF ops < MaxOps THEN Do ELSE Finish
Spec == Init /\ [][Next]_vars

Inverse == n > 0 => Times(A, I) = Ident(n) /\ Times(I, A) = Ident(n)
=============================================================================
