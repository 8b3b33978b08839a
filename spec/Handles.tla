------------------------------ MODULE Handles ------------------------------
(* The C interface of the matrix library (C16): handles that are live from the  *)
(* call that made them until they are freed, over the operations of MatrixOps.   *)
(* A call gives a new handle or null, a status, or a number; only the handle it   *)
(* names changes.                                                                 *)
EXTENDS MatrixOps

VARIABLE live
hvars == <<reg, hist, fin, live>>

RECURSIVE Det(_, _)
Det(X, k) == IF k = 0 THEN 1
             ELSE SumTo([j \in 1..k |-> (IF j % 2 = 1 THEN 1 ELSE -1) * X[j] *
                           Det(TLCEval([x \in 1..((k - 1) * (k - 1)) |->
                              LET y == ((x - 1) % (k - 1)) + 1 IN X[((x - 1) \div (k - 1) + 1) * k + (IF y < j THEN y ELSE y + 1)]]), k - 1)], k)
\* element (j, i) of the adjugate is the cofactor of element (i, j)
Without(A, p, q) == Mat(A.r - 1, A.c - 1, LAMBDA i, j: At(A, IF i < p THEN i ELSE i + 1, IF j < q THEN j ELSE j + 1))
Adjugate(A) == Mat(A.r, A.r, LAMBDA i, j: (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Without(A, j, i).v, A.r - 1))
IsZeroRow(A) == \E i \in 0..(A.r - 1) : \A j \in 0..(A.c - 1) : At(A, i, j) = 0
IsPermutation(A) == /\ \A x \in DOMAIN A.v : A.v[x] \in {0, 1, -1}
                    /\ \A i \in 0..(A.r - 1) : Cardinality({j \in 0..(A.c - 1) : At(A, i, j) # 0}) = 1
                    /\ \A j \in 0..(A.c - 1) : Cardinality({i \in 0..(A.r - 1) : At(A, i, j) # 0}) = 1
OK == -1   \* the largest unsigned int
\* [status, m]; status -2: not called here, because the inverse is not one of whole numbers
Invert(A) ==
    IF A.r # A.c THEN <<3, A>>
    ELSE IF A.r = 0 THEN <<-2, A>>
    ELSE IF A.r = 1 THEN (IF A.v[1] = 0 THEN <<1, A>> ELSE IF Abs(A.v[1]) = 1 THEN <<OK, A>> ELSE <<-2, A>>)
    ELSE IF \E x \in DOMAIN A.v : Abs(A.v[x]) > 40 THEN <<-2, A>>
    ELSE IF A.r <= 4 THEN LET d == Det(A.v, A.r) IN IF d = 0 THEN <<0, A>> ELSE IF Abs(d) = 1 THEN <<OK, Scale(Adjugate(A), d)>> ELSE <<-2, A>>
    ELSE IF IsZeroRow(A) THEN <<2, A>> ELSE IF IsPermutation(A) THEN <<OK, Transpose(A)>> ELSE <<-2, A>>

Makers == {"new", "identity", "clone", "transpose", "multiply", "augment", "subset"}
Changers == {"scale", "swap", "row_scale", "row_add", "scaled_row_add", "set"}
Readers == {"get", "trace"}
Rec(o, ok, status, to, m, val) == [call |-> o, ok |-> ok, status |-> status, to |-> to, m |-> m, val |-> val]
\* the call names live handles only; a handle made goes to a free name
Apply(o) ==
    LET e == Effect(o) IN
    IF ~Plain(o) THEN UNCHANGED hvars ELSE
    /\ live' = IF e.ok /\ o.op \in Makers THEN live \cup {o.d} ELSE live
    /\ reg' = IF e.to = "" THEN reg ELSE [reg EXCEPT ![e.to] = e.m]
    /\ hist' = Append(hist, Rec(o, e.ok, 0, e.to, e.m, e.val))
    /\ UNCHANGED fin
Plainly(o, status, to, m) == hist' = Append(hist, Rec(o, TRUE, status, to, m, <<>>)) /\ UNCHANGED fin
O(op, a, b, d, x, vals) == [op |-> op, a |-> a, b |-> b, d |-> d, s |-> 0, x |-> x, vals |-> vals]

Frees == Regs \ live
Fill(a) == \E vs \in {[i \in 1..(reg[a].r * reg[a].c) |-> Num(i)]} :
              /\ reg' = [reg EXCEPT ![a] = [reg[a] EXCEPT !.v = vs]]
              /\ UNCHANGED live /\ Plainly(O("fill", a, a, a, <<>>, vs), 1, a, [reg[a] EXCEPT !.v = vs])
Inv(a) == LET r == TLCEval(Invert(reg[a])) IN
              IF r[1] = -2 \/ ~Fits(r[2]) THEN UNCHANGED hvars ELSE
              /\ reg' = [reg EXCEPT ![a] = r[2]] /\ UNCHANGED live
              /\ Plainly(O("invert", a, a, a, <<>>, <<>>), r[1], IF r[1] = OK THEN a ELSE "", IF r[1] = OK THEN r[2] ELSE None)
Free(a) == live' = live \ {a} /\ reg' = [reg EXCEPT ![a] = None] /\ Plainly(O("free", a, a, a, <<>>, <<>>), 0, "", None)
\* far too big: no matrix, and no harm
Huge(a) == UNCHANGED <<reg, live>> /\ Plainly(O(Pick({"huge", "huge identity"}), a, a, a, <<>>, <<>>), 0, "", None)
HStep ==
    IF live = {} THEN \E op \in {Pick({"new", "identity"})}, d \in {Pick(Regs)} : \E c \in {Call(op, d, d, d)} : Apply(O(op, d, d, d, c.x, c.vals))
    ELSE \E k \in {Pick(1..20)}, a \in {Pick(live)} :
       CASE k <= 2 -> Free(a)
         [] k \in 3..5 \/ (k = 6 /\ \A x \in DOMAIN reg[a].v : reg[a].v[x] = 0) -> Fill(a)
         [] k \in 7..8 -> Inv(a)
         [] k = 9 -> Huge(a)
         [] OTHER ->
              \E op \in {Pick(Readers \cup Changers \cup (IF Frees = {} THEN {} ELSE Makers))}, d \in {IF Frees = {} THEN a ELSE Pick(Frees)} :
              \E b \in {LET M == Matching(op, reg[a]) \cap live IN IF Pick(1..5) > 1 /\ M # {} THEN Pick(M) ELSE Pick(live)} :
              \E c \in {Call(op, a, b, d)} : Apply(O(op, a, b, d, c.x, c.vals))
HInit == Init /\ live = {}
HNext == /\ ~fin
         /\ IF Len(hist) < MaxOps THEN HStep
            ELSE IF live # {} THEN \E a \in live : Free(a)
            ELSE fin' = TRUE /\ UNCHANGED <<reg, hist, live>> /\ PrintT("@@" \o ToJson(hist))
HSpec == HInit /\ [][HNext]_hvars

\* only live handles have a matrix, and inversion gives an inverse
Clean == \A a \in Regs : a \in live \/ reg[a] = None
Inverts == \A a \in live : LET A == reg[a] i == TLCEval(Invert(A)) IN
              (A.r = A.c /\ i[1] = OK) => Times(A, i[2]) = Ident(A.r)
=============================================================================
