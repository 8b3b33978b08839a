------------------------------ MODULE MatrixOps ------------------------------
(* Matrices as a machine with registers (C14; C16 runs it through the C        *)
(* interface). Each operation has its algebraic meaning; one that does not fit *)
(* is reported and changes nothing.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs, MaxDim, MaxOps, Lim, Unit

VARIABLES reg, hist, fin
vars == <<reg, hist, fin>>

Pick(S) == RandomElement(S)
Abs(x) == IF x < 0 THEN -x ELSE x
Mat(r, c, f(_, _)) == [r |-> r, c |-> c, v |-> TLCEval([k \in 1..(r * c) |-> f((k - 1) \div c, (k - 1) % c)])]
At(A, i, j) == A.v[i * A.c + j + 1]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

Zero(r, c) == Mat(r, c, LAMBDA i, j: 0)
Ident(n) == Mat(n, n, LAMBDA i, j: IF i = j THEN 1 ELSE 0)
Transpose(A) == Mat(A.c, A.r, LAMBDA i, j: At(A, j, i))
Times(A, B) == Mat(A.r, B.c, LAMBDA i, j: SumTo([x \in 1..A.c |-> At(A, i, x - 1) * At(B, x - 1, j)], A.c))
TimesAbs(A, B) == Mat(A.r, B.c, LAMBDA i, j: SumTo([x \in 1..A.c |-> Abs(At(A, i, x - 1) * At(B, x - 1, j))], A.c))
Plus(A, B) == Mat(A.r, A.c, LAMBDA i, j: At(A, i, j) + At(B, i, j))
Minus(A, B) == Mat(A.r, A.c, LAMBDA i, j: At(A, i, j) - At(B, i, j))
Scale(A, s) == Mat(A.r, A.c, LAMBDA i, j: s * At(A, i, j))
Augment(A, B) == Mat(A.r, A.c + B.c, LAMBDA i, j: IF j < A.c THEN At(A, i, j) ELSE At(B, i, j - A.c))
Subset(A, r1, c1, r2, c2) == Mat(r2 - r1 + 1, c2 - c1 + 1, LAMBDA i, j: At(A, r1 + i, c1 + j))
Trace(A) == SumTo([i \in 1..A.r |-> At(A, i - 1, i - 1)], A.r)
RowSwap(A, p, q) == Mat(A.r, A.c, LAMBDA i, j: At(A, IF i = p THEN q ELSE IF i = q THEN p ELSE i, j))
RowScale(A, p, s) == Mat(A.r, A.c, LAMBDA i, j: IF i = p THEN s * At(A, i, j) ELSE At(A, i, j))
RowAdd(A, p, q, s) == Mat(A.r, A.c, LAMBDA i, j: IF i = p THEN At(A, i, j) + s * At(A, q, j) ELSE At(A, i, j))
Set(A, i, j, x) == [A EXCEPT !.v = [A.v EXCEPT ![i * A.c + j + 1] = x]]
Fits(A) == \A k \in DOMAIN A.v : Abs(A.v[k]) <= Lim

-----------------------------------------------------------------------------
(* Operations. o: the call [op, a, b, d (registers), x (arguments), s (variant)] *)
(* Each gives [ok, to (the register that changes, or ""), m (its matrix), val]    *)
None == Zero(0, 0)
Good(d, m) == [ok |-> TRUE, to |-> d, m |-> m, val |-> <<>>]
Value(v) == [ok |-> TRUE, to |-> "", m |-> None, val |-> <<v>>]
Bad == [ok |-> FALSE, to |-> "", m |-> None, val |-> <<>>]
Effect(o) ==
    LET A == reg[o.a]  B == reg[o.b]  x == o.x IN
    CASE o.op = "new" -> Good(o.d, Zero(x[1], x[2]))
      [] o.op = "identity" -> Good(o.d, Ident(x[1]))
      [] o.op = "from_vec" -> IF x[1] = 0 \/ Len(o.vals) % x[1] # 0 THEN Bad ELSE Good(o.d, [r |-> Len(o.vals) \div x[1], c |-> x[1], v |-> o.vals])
      [] o.op = "from_row_vec" -> Good(o.d, [r |-> 1, c |-> Len(o.vals), v |-> o.vals])
      [] o.op = "from_col_vec" -> Good(o.d, [r |-> Len(o.vals), c |-> 1, v |-> o.vals])
      [] o.op = "clone" -> Good(o.d, A)
      [] o.op = "transpose" -> Good(o.d, Transpose(A))
      [] o.op = "multiply" -> IF A.c # B.r THEN Bad ELSE Good(o.d, Times(A, B))
      [] o.op = "augment" -> IF A.r # B.r THEN Bad ELSE Good(o.d, Augment(A, B))
      [] o.op = "subset" -> IF x[1] > x[3] \/ x[2] > x[4] \/ x[3] >= A.r \/ x[4] >= A.c THEN Bad ELSE Good(o.d, Subset(A, x[1], x[2], x[3], x[4]))
      [] o.op \in {"add", "add_assign"} -> IF A.r # B.r \/ A.c # B.c THEN Bad ELSE Good(IF o.op = "add" THEN o.d ELSE o.a, Plus(A, B))
      [] o.op \in {"sub", "sub_assign"} -> IF A.r # B.r \/ A.c # B.c THEN Bad ELSE Good(IF o.op = "sub" THEN o.d ELSE o.a, Minus(A, B))
      [] o.op = "mul_scalar" -> Good(o.d, Scale(A, x[1]))
      [] o.op = "scale" -> Good(o.a, Scale(A, x[1]))
      [] o.op = "swap" -> IF x[1] >= A.r \/ x[2] >= A.r THEN Bad ELSE Good(o.a, RowSwap(A, x[1], x[2]))
      [] o.op = "row_scale" -> IF x[1] >= A.r THEN Bad ELSE Good(o.a, RowScale(A, x[1], x[2]))
      [] o.op = "row_add" -> IF x[1] >= A.r \/ x[2] >= A.r THEN Bad ELSE Good(o.a, RowAdd(A, x[1], x[2], 1))
      [] o.op = "scaled_row_add" -> IF x[1] >= A.r \/ x[2] >= A.r THEN Bad ELSE Good(o.a, RowAdd(A, x[1], x[2], x[3]))
      [] o.op = "set" -> IF x[1] >= A.r \/ x[2] >= A.c THEN Bad ELSE Good(o.a, Set(A, x[1], x[2], x[3]))
      [] o.op = "get" -> IF x[1] >= A.r \/ x[2] >= A.c THEN Bad ELSE Value(At(A, x[1], x[2]))
      [] o.op = "trace" -> IF A.r # A.c THEN Bad ELSE Value(Trace(A))
      [] o.op = "equal" -> Value(IF A = B THEN 1 ELSE 0)
(* Intermediate results stay within Lim, so that they are exact in every element *)
(* type; a matrix without columns has no element that a row operation could miss *)
Plain(o) ==
    LET A == reg[o.a]  B == reg[o.b]  e == Effect(o) IN
    /\ Fits(e.m) /\ \A i \in DOMAIN e.val : Abs(e.val[i]) <= Lim
    /\ (o.op = "multiply" /\ e.ok) => Fits(TimesAbs(A, B))
    /\ (o.op = "trace" /\ e.ok) => SumTo([i \in 1..A.r |-> Abs(At(A, i - 1, i - 1))], A.r) <= Lim
    /\ (o.op = "scaled_row_add" /\ e.ok) => \A j \in 0..(A.c - 1) : Abs(o.x[3] * At(A, o.x[2], j)) <= Lim
    /\ (o.op \in {"swap", "row_scale", "row_add", "scaled_row_add"} /\ A.c = 0) => e.ok
    /\ e.m.r <= MaxDim + 2 /\ e.m.c <= MaxDim + 2

Dim(z) == CASE Pick(1..20) = 1 -> 0 [] Pick(1..3) < 3 -> Pick(1..4) [] OTHER -> Pick(1..MaxDim)
Num(z) == IF Pick(1..4) = 1 THEN 0 ELSE Pick(-5..7) * Unit
\* an index into n things; now and then one just past them
Ix(n) == IF n = 0 \/ Pick(1..10) = 1 THEN n + Pick({0, 0, 1, 3}) ELSE Pick(0..(n - 1))
\* a dimension, often one that some register already has
Like(z) == LET A == reg[Pick(Regs)]  k == CASE Pick(1..3) = 1 -> A.r [] Pick(1..2) = 1 -> A.c [] OTHER -> 0
           IN IF k = 0 THEN Dim(1) ELSE k
\* a square matrix that is nearly symmetric, antisymmetric, diagonal or of equal
\* rows: all but at most one element
Structured(n) ==
    LET base == TLCEval([i \in 1..(n * n) |-> Num(i)])
        kind == Pick(1..5)
        F(i, j) == CASE kind = 1 -> base[(IF i < j THEN i ELSE j) * n + (IF i < j THEN j ELSE i) + 1]
                     [] kind = 2 -> IF i = j THEN 0 ELSE IF i < j THEN base[i * n + j + 1] ELSE -base[j * n + i + 1]
                     [] kind = 3 -> IF i = j THEN base[i + 1] ELSE 0
                     [] kind = 4 -> base[j + 1]
                     [] OTHER    -> IF i <= j THEN base[i * n + j + 1] ELSE 0
        spot == Pick(0..(n * n))
    IN TLCEval([k \in 1..(n * n) |-> IF k = spot THEN Num(1) ELSE F((k - 1) \div n, (k - 1) % n)])
Call(op, a, b, d) ==
    LET A == reg[a] IN
    CASE op = "new" -> [x |-> <<Dim(1), Dim(2)>>, vals |-> <<>>]
      [] op = "identity" -> [x |-> <<Dim(1)>>, vals |-> <<>>]
      [] op \in {"from_vec", "from_row_vec", "from_col_vec"} ->
            LET n == Like(1)  m == IF op = "from_vec" THEN Like(2) ELSE 1
                k == IF n * m <= MaxDim * MaxDim THEN n * m ELSE n
            IN IF n = m /\ n > 1 /\ Pick(1..3) = 1 /\ n * m <= MaxDim * MaxDim THEN [x |-> <<m>>, vals |-> Structured(n)]
               ELSE [x |-> <<m>>, vals |-> [i \in 1..(k + IF Pick(1..12) = 1 THEN 1 ELSE 0) |-> Num(i)]]
      [] op = "subset" -> LET r1 == Ix(A.r)  c1 == Ix(A.c) IN
            [x |-> <<r1, c1, IF r1 < A.r /\ Pick(1..8) > 1 THEN Pick(r1..(A.r - 1)) ELSE Ix(A.r), IF c1 < A.c /\ Pick(1..8) > 1 THEN Pick(c1..(A.c - 1)) ELSE Ix(A.c)>>, vals |-> <<>>]
      [] op \in {"mul_scalar", "scale"} -> [x |-> <<Pick(-3..3)>>, vals |-> <<>>]
      [] op \in {"swap", "row_add"} -> [x |-> <<Ix(A.r), Ix(A.r)>>, vals |-> <<>>]
      [] op = "row_scale" -> [x |-> <<Ix(A.r), Pick(-3..3)>>, vals |-> <<>>]
      [] op = "scaled_row_add" -> [x |-> <<Ix(A.r), Ix(A.r), Pick(-3..3)>>, vals |-> <<>>]
      [] op = "set" -> [x |-> <<Ix(A.r), Ix(A.c), Num(1)>>, vals |-> <<>>]
      [] op = "get" -> [x |-> <<Ix(A.r), Ix(A.c)>>, vals |-> <<>>]
      [] OTHER -> [x |-> <<>>, vals |-> <<>>]
Empty == {r \in Regs : reg[r].r * reg[r].c = 0}
Make == {"new", "identity", "from_vec", "from_row_vec", "from_col_vec"}
Ops == {"clone", "transpose", "multiply", "augment", "subset", "add", "add_assign", "sub", "sub_assign", "mul_scalar", "scale",
        "swap", "row_scale", "row_add", "scaled_row_add", "set", "get", "trace", "equal"}
Starting(z) == Len(hist) <= Cardinality(Regs) + 1
PickOp(z) == IF Starting(1) THEN IF Pick(1..8) = 1 THEN Pick(Make) ELSE "from_vec"
             ELSE IF Pick(1..5) = 1 THEN (IF Pick(1..2) = 1 THEN Pick(Make) ELSE "from_vec") ELSE Pick(Ops)
PickDest(z) == IF Starting(1) /\ Empty # {} THEN Pick(Empty) ELSE Pick(Regs)
Partner == {"multiply", "augment", "add", "add_assign", "sub", "sub_assign", "equal"}
Matching(op, A) == CASE op = "multiply" -> {r \in Regs : reg[r].r = A.c} [] op = "augment" -> {r \in Regs : reg[r].r = A.r}
                     [] op \in Partner -> {r \in Regs : reg[r].r = A.r /\ reg[r].c = A.c} [] OTHER -> Regs
Do == \E op \in {PickOp(1)}, a \in {IF Pick(1..6) > 1 /\ Regs # Empty THEN Pick(Regs \ Empty) ELSE Pick(Regs)}, d \in {PickDest(1)}, s \in {Pick(1..4)} :
      \E b \in {IF Pick(1..6) > 1 /\ Matching(op, reg[a]) # {} THEN Pick(Matching(op, reg[a])) ELSE Pick(Regs)} :
      \E c \in {Call(op, a, b, d)} :
         LET o == [op |-> op, a |-> a, b |-> b, d |-> d, s |-> s, x |-> c.x, vals |-> c.vals]
             e == Effect(o)
         IN IF Plain(o) THEN /\ reg' = IF e.to = "" THEN reg ELSE [reg EXCEPT ![e.to] = e.m]
                             /\ hist' = Append(hist, [call |-> o, ok |-> e.ok, to |-> e.to, m |-> e.m, val |-> e.val])
                             /\ UNCHANGED fin
            ELSE UNCHANGED vars
Init == reg = [r \in Regs |-> None] /\ hist = <<>> /\ fin = FALSE
Next == /\ ~fin
        /\ IF Len(hist) < MaxOps THEN Do
           ELSE fin' = TRUE /\ UNCHANGED <<reg, hist>> /\ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* laws of the operations, checked on every state reached
Laws ==
    \A a, b \in Regs : LET A == reg[a]  B == reg[b] IN
      /\ Transpose(Transpose(A)) = A
      /\ A.c = B.r => /\ Transpose(Times(A, B)) = Times(Transpose(B), Transpose(A))
                      /\ (A.r = B.c => Trace(Times(A, B)) = Trace(Times(B, A)))
      /\ Times(A, Ident(A.c)) = A /\ Times(Ident(A.r), A) = A
      /\ (A.r = B.r /\ A.c = B.c) => Minus(Plus(A, B), B) = A
      /\ (A.r = B.r /\ A.r > 0 /\ A.c > 0) => Subset(Augment(A, B), 0, 0, A.r - 1, A.c - 1) = A
      /\ A.r > 1 => RowSwap(RowSwap(A, 0, A.r - 1), A.r - 1, 0) = A /\ RowAdd(RowAdd(A, 0, 1, 3), 0, 1, -3) = A
Shapes == \A a \in Regs : Len(reg[a].v) = reg[a].r * reg[a].c
=============================================================================
