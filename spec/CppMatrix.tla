------------------------------ MODULE CppMatrix ------------------------------
(* The C++ matrix class (C24): objects, each with a matrix of its own, over the  *)
(* operations of MatrixOps. What an operation gives becomes a new object or the   *)
(* value of an existing one; copying copies the value. An operation that does not  *)
(* fit throws and changes nothing.                                                 *)
EXTENDS Handles

\* the elements row by row, columns parted by commas and rows by semicolons
RECURSIVE Listing(_, _)
Listing(A, k) == IF k > Len(A.v) THEN "]"
                 ELSE (IF k = 1 THEN "[" ELSE IF (k - 1) % A.c = 0 THEN ";" ELSE ",") \o ToString(A.v[k]) \o Listing(A, k + 1)
\* every object: the text of a matrix with elements, and whether it is square
Show(R, L) == [a \in L |-> [text |-> IF R[a].r * R[a].c > 0 THEN Listing(R[a], 1) ELSE "", square |-> R[a].r = R[a].c]]

\* what is said of an operation that throws names these numbers
Named(o) == CASE o.op = "row_scale" -> {o.x[1]}
              [] o.op \in {"row_add", "scaled_row_add"} -> {o.x[1], o.x[2]}
              [] o.op = "subset" -> (LET A == reg[o.a] IN IF o.x[1] >= A.r THEN {o.x[1]} ELSE IF o.x[3] >= A.r THEN {o.x[3]}
                                     ELSE IF o.x[2] >= A.c THEN {o.x[2]} ELSE IF o.x[4] >= A.c THEN {o.x[4]} ELSE {o.x[1], o.x[2], o.x[3], o.x[4]})
              [] OTHER -> {}
\* how: what becomes of the result
Hows == {"plain", "returned", "stored", "swapped"}
Say(o, how, out, throws, to) == hist' = Append(hist, [call |-> o, how |-> how, out |-> out, throws |-> throws, named |-> IF throws THEN Named(o) ELSE {},
                                                         to |-> to, shown |-> Show(reg', live')]) /\ UNCHANGED fin
CMakers == Makers
CChangers == {"scale", "row_scale", "row_add", "scaled_row_add"}     \* they throw when they do not fit
COp(o) ==
    LET e == Effect(o) IN
    IF ~Plain(o) THEN UNCHANGED hvars
    ELSE \E how \in {Pick(Hows)} :
         /\ live' = IF e.ok /\ o.op \in CMakers THEN live \cup {o.d} ELSE live
         /\ reg' = IF e.to = "" THEN reg ELSE [reg EXCEPT ![e.to] = e.m]
         /\ CASE o.op \in CMakers \cup CChangers -> Say(o, how, "", ~e.ok, e.to)
              [] o.op = "set" -> Say(o, how, IF e.ok THEN "yes" ELSE "no", FALSE, e.to)
              [] o.op = "get" -> Say(o, how, IF e.ok THEN ToString(e.val[1]) ELSE "lowest", FALSE, e.to)
              [] o.op = "trace" -> Say(o, how, IF e.ok THEN ToString(e.val[1]) ELSE "nan", FALSE, e.to)
CFill(a) == \E vs \in {[i \in 1..(reg[a].r * reg[a].c) |-> Num(i)]} :
              /\ reg' = [reg EXCEPT ![a] = [reg[a] EXCEPT !.v = vs]]
              /\ UNCHANGED live /\ Say(O("fill", a, a, a, <<>>, vs), "plain", "yes", FALSE, a)
CInvert(a) == LET r == TLCEval(Invert(reg[a])) IN
              IF r[1] = -2 \/ ~Fits(r[2]) THEN UNCHANGED hvars ELSE
              /\ reg' = [reg EXCEPT ![a] = r[2]] /\ UNCHANGED live
              /\ Say(O("invert", a, a, a, <<>>, <<>>), "plain", CASE r[1] = 0 -> "determinant" [] r[1] = 1 -> "1 x 1" [] r[1] = 2 -> "division" [] OTHER -> "", r[1] # OK,
                     IF r[1] = OK THEN a ELSE "")
Drop(a) == live' = live \ {a} /\ reg' = [reg EXCEPT ![a] = None] /\ Say(O("drop", a, a, a, <<>>, <<>>), "plain", "", FALSE, "")
CHuge(a) == \E op \in {Pick({"huge", "huge identity"})} : UNCHANGED <<reg, live>> /\ Say(O(op, a, a, a, <<>>, <<>>), "plain", "", TRUE, "")
CStep ==
    IF live = {} THEN \E op \in {Pick({"new", "identity"})}, d \in {Pick(Regs)} : \E c \in {Call(op, d, d, d)} : COp(O(op, d, d, d, c.x, c.vals))
    ELSE \E k \in {Pick(1..20)}, a \in {Pick(live)} :
       CASE k = 1 -> Drop(a)
         [] k \in 3..5 \/ (k = 6 /\ \A x \in DOMAIN reg[a].v : reg[a].v[x] = 0) -> CFill(a)
         [] k \in 7..8 -> CInvert(a)
         [] k = 9 -> CHuge(a)
         [] OTHER ->
              \E op \in {Pick({"get", "trace", "set"} \cup CChangers \cup CMakers)} :
              \E d \in {IF Frees = {} \/ Pick(1..3) = 1 THEN Pick(Regs) ELSE Pick(Frees)} :
              \E b \in {LET M == Matching(op, reg[a]) \cap live IN IF Pick(1..5) > 1 /\ M # {} THEN Pick(M) ELSE Pick(live)} :
              \E c \in {Call(op, a, b, d)} : COp(O(op, a, b, d, c.x, c.vals))
CNext == /\ ~fin
         /\ IF Len(hist) < MaxOps THEN CStep
            ELSE IF live # {} THEN \E a \in live : Drop(a)
            ELSE fin' = TRUE /\ UNCHANGED <<reg, hist, live>> /\ PrintT("@@" \o ToJson(hist))
CSpec == HInit /\ [][CNext]_hvars
=============================================================================
