------------------------------- MODULE Program -------------------------------
(* A program: a set of equations in no particular order, solved by repeatedly  *)
(* solving an equation with one unknown, or, when there is none, a subsystem   *)
(* grown from an equation by equations that bring at most one new unknown,     *)
(* until nothing more is determined (C10). The specification builds a random   *)
(* program of blocks of regular linear equations with known solution, some     *)
(* with equations missing, and solves it along one of the possible orders; all *)
(* of them must determine the same unknowns.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MinBlocks, MaxBlocks, MaxBlock, MaxEntry, Fault  \* Fault: the fault of the program, or "any"

VARIABLES stage, nblocks, block, ops, rows, sol, fault, known, pool, det, trail, decl, fin
vars == <<stage, nblocks, block, ops, rows, sol, fault, known, pool, det, trail, decl, fin>>
(* rows: sequence of [c: coefficients of the unknowns 1.., kind]                *)

Pick(S) == RandomElement(S)
Abs(a) == IF a < 0 THEN -a ELSE a
N == Len(sol)
Ids == 1..Len(rows)
Names(i) == {j \in 1..Len(rows[i].c) : rows[i].c[j] # 0}
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + Dot(a, b, i - 1)
Rhs(i) == Dot(rows[i].c, sol, Len(rows[i].c)) + rows[i].off
RECURSIVE RandPerm(_)
RandPerm(S) == UNION {{<<e>> \o p : p \in (IF S = {e} THEN {<<>>} ELSE RandPerm(S \ {e}))} : e \in {Pick(S)}}

-----------------------------------------------------------------------------
(* the search *)
Unk(i, k) == Names(i) \ k
Singles(p, k) == {i \in p : rows[i].kind # "bad" /\ Cardinality(Unk(i, k)) = 1}
RECURSIVE Grow(_, _, _, _)
\* grow the subsystem S with unknowns v by any acceptable equations
Grow(S, v, p, k) ==
    LET acc == IF Cardinality(S) = Cardinality(v) THEN {}
               ELSE {i \in p \ S : rows[i].kind # "bad" /\ Unk(i, k) # {} /\ Cardinality(Unk(i, k) \ v) <= 1}
    IN IF acc = {} THEN <<S, v>>
       ELSE LET i == CHOOSE i \in acc : TRUE IN Grow(S \cup {i}, v \cup Unk(i, k), p, k)
RECURSIVE GrowAny(_, _, _, _)
GrowAny(S, v, p, k) ==
    LET acc == IF Cardinality(S) = Cardinality(v) THEN {}
               ELSE {i \in p \ S : rows[i].kind # "bad" /\ Unk(i, k) # {} /\ Cardinality(Unk(i, k) \ v) <= 1}
    IN IF acc = {} THEN {<<S, v>>}
       ELSE UNION {GrowAny(S \cup {i}, v \cup Unk(i, k), p, k) : i \in {Pick(acc)}}
Full(g) == Cardinality(g[1]) = Cardinality(g[2]) /\ g[2] # {}
Starts(p, k) == {i \in p : rows[i].kind # "bad" /\ Unk(i, k) # {} /\ Full(Grow({i}, Unk(i, k), p, k))}
RECURSIVE Closure(_, _)
Closure(p, k) ==
    IF Singles(p, k) # {} THEN LET i == CHOOSE i \in Singles(p, k) : TRUE IN Closure(p \ {i}, k \cup Unk(i, k))
    ELSE IF Starts(p, k) # {} THEN LET i == CHOOSE i \in Starts(p, k) : TRUE
                                       g == Grow({i}, Unk(i, k), p, k)
                                   IN Closure(p \ g[1], k \cup g[2])
    ELSE k

-----------------------------------------------------------------------------
(* building a program *)
Init == /\ stage = "blocks" /\ nblocks = 0 /\ block = <<>> /\ ops = 0 /\ rows = <<>> /\ sol = <<>> /\ fault = "none"
        /\ known = {} /\ pool = {} /\ det = {} /\ trail = <<>> /\ decl = <<>> /\ fin = FALSE
Rest == UNCHANGED <<known, pool, det, trail, decl, fin>>

Open == /\ stage = "blocks" /\ block = <<>> /\ nblocks < MaxBlocks
        /\ \E m \in {Pick(1..MaxBlock)} : \E q \in RandPerm(1..m) :
              block' = [i \in 1..m |-> [j \in 1..m |-> IF j = q[i] THEN Pick({1, 1, -1}) ELSE 0]]
        /\ ops' = 0 /\ UNCHANGED <<stage, nblocks, rows, sol, fault>> /\ Rest
\* a ring: each equation has two unknowns, shared with the ones before and after it
Ring == /\ stage = "blocks" /\ block = <<>> /\ nblocks < MaxBlocks /\ MaxBlock > 2
        /\ \E m \in {Pick(3..MaxBlock)}, s \in {Pick({1, -1})} : \E q \in RandPerm(1..m) :
              block' = [i \in 1..m |-> [j \in 1..m |-> IF j = q[i] THEN s ELSE IF j = (q[i] % m) + 1 THEN 2 ELSE 0]]
        /\ ops' = 100 /\ UNCHANGED <<stage, nblocks, rows, sol, fault>> /\ Rest
Mix == /\ stage = "blocks" /\ Len(block) > 1
       /\ \E i \in {Pick(1..Len(block))} : \E j \in {Pick((1..Len(block)) \ {i})}, c \in {Pick({-2, -1, 1, 1, 2})} :
             LET r == [q \in 1..Len(block) |-> block[i][q] + c * block[j][q]]
             IN block' = IF \A q \in 1..Len(block) : Abs(r[q]) <= MaxEntry THEN [block EXCEPT ![i] = r] ELSE block
       /\ ops' = ops + 1 /\ UNCHANGED <<stage, nblocks, rows, sol, fault>> /\ Rest
\* finish the block: couple it to the unknowns before it; drop some of its rows
Close == /\ stage = "blocks" /\ block # <<>>
         /\ \E dropped \in {IF Pick(1..5) = 1 THEN Pick(1..Len(block)) ELSE 0}, coupled \in {Pick({TRUE, TRUE, FALSE})} :
              LET m == Len(block)
                  kept == SelectSeq([i \in 1..m |-> i], LAMBDA i : i # dropped)
              IN /\ \E new \in {[q \in 1..Len(kept) |->
                        [c |-> [j \in 1..N |-> IF coupled /\ Pick(1..3) = 1 THEN Pick({-1, 1, 2}) ELSE 0] \o block[kept[q]],
                         kind |-> "eq", off |-> 0, coupled |-> coupled, twin |-> <<>>]]} : rows' = rows \o new
                 /\ \E s \in {[i \in 1..m |-> Pick(-6..6)]} : sol' = sol \o s
         /\ nblocks' = nblocks + 1 /\ block' = <<>> /\ ops' = 0 /\ UNCHANGED <<stage, fault>> /\ Rest

Pad(r) == [r EXCEPT !.c = [j \in 1..N |-> IF j <= Len(r.c) THEN r.c[j] ELSE 0]]
\* a fault that makes the program fail, or none
Finish == /\ stage = "blocks" /\ block = <<>> /\ nblocks > 0
          /\ \E f \in {IF Fault # "any" THEN Fault ELSE IF Pick(1..3) = 1 THEN "none" ELSE Pick({"none", "contra", "contra1", "bad", "outside", "redundant", "limit", "margin"})},
                a \in {Pick({-2, -1, 1, 2})}, b \in {Pick({-1, 1, 3})}, off \in {Pick({-4, 1, 9})}, x \in {Pick(-5..5)}, y \in {Pick(-5..5)} :
               LET wide == [i \in 1..Len(rows) |-> Pad(rows[i])]
                   n1 == N + 1
                   Z(p, q) == [j \in 1..(N + 2) |-> IF j = n1 THEN p ELSE IF j = n1 + 1 THEN q ELSE 0]
                   R(p, q, o, k) == [c |-> Z(p, q), kind |-> k, off |-> o, coupled |-> FALSE, twin |-> <<>>]
                   extra == CASE f = "contra"    -> <<R(a, b, 0, "eq"), R(a, b, off, "eq")>>
                              \* an unknown with one equation, which has no solution: 0 * x = off
                              [] f = "contra1"   -> <<R(1, 0, off, "none")>>
                              [] f = "bad"       -> <<R(1, x % 2, 0, "bad")>>
                              [] f = "redundant" -> <<R(1, 0, 0, "eq"), R(2, 0, 0, "eq"), R(0, 3, 0, "eq")>>
                              [] OTHER           -> <<>>
               IN /\ fault' = f
                  /\ rows' = [i \in 1..Len(rows) |-> [wide[i] EXCEPT !.c = @ \o (IF extra = <<>> THEN <<>> ELSE <<0, 0>>)]] \o extra
                  /\ sol' = sol \o (IF extra = <<>> THEN <<>> ELSE <<x, y>>)
          /\ stage' = "twin" /\ UNCHANGED <<nblocks, block, ops>> /\ Rest
\* a new unknown in the place of another one in a copy of an equation
Twin == /\ stage = "twin"
        /\ \E i \in {IF Ids = {} THEN 0 ELSE Pick(Ids)} :
              IF i = 0 \/ fault # "none" \/ Names(i) = {} \/ Pick(1..2) = 1 THEN UNCHANGED <<rows, sol>>
              ELSE \E v \in {Pick(Names(i))} :
                   /\ rows' = [q \in Ids |-> [rows[q] EXCEPT !.c = Append(@, 0)]]
                               \o <<[rows[i] EXCEPT !.c = Append([@ EXCEPT ![v] = 0], @[v]), !.twin = <<i, v>>]>>
                   /\ sol' = Append(sol, sol[v])
        /\ stage' = "declare" /\ UNCHANGED <<nblocks, block, ops, fault>> /\ Rest
\* guesses and domains of the unknowns, around the solution
Declare == /\ stage = "declare"
           /\ \E d \in {[j \in 1..N |-> LET g == Pick(1..4) IN
                  IF Fault = "any" /\ Pick(1..3) > 1 THEN <<>>
                  ELSE LET lo == sol[j] - Pick(1..6)  hi == sol[j] + Pick(2..6)
                       IN <<Pick(lo..hi), lo, hi>>]} : decl' = d
           /\ det' = Closure(Ids, {})
           /\ pool' = Ids /\ stage' = "solve"
           /\ UNCHANGED <<nblocks, block, ops, rows, sol, fault, known, trail, fin>>

-----------------------------------------------------------------------------
(* solving it, along a random order *)
Solved(S, v) == /\ known' = known \cup v /\ pool' = pool \ S /\ trail' = Append(trail, S)
                /\ UNCHANGED <<stage, nblocks, block, ops, rows, sol, fault, det, decl, fin>>
SolveOne == /\ stage = "solve"
            /\ \E i \in {Pick(Singles(pool, known))} : Solved({i}, Unk(i, known))
SolveSub == /\ stage = "solve" /\ Singles(pool, known) = {}
            /\ \E i \in {Pick(Starts(pool, known))} : \E g \in GrowAny({i}, Unk(i, known), pool, known) : Solved(g[1], g[2])
Stuck == stage = "solve" /\ Singles(pool, known) = {} /\ Starts(pool, known) = {}
(* Whether the program fails: an equation is malformed, or the solution of a    *)
(* determined unknown lies outside its domain, or there is no solution          *)
Target == IF det = {} THEN 0 ELSE CHOOSE j \in det : TRUE
Failing == fault \in {"contra", "contra1", "bad", "limit", "margin"} \/ (fault = "outside" /\ det # {})
Emit == /\ Stuck /\ fin' = TRUE
        /\ PrintT("@@" \o ToJson([rows |-> [i \in Ids |-> [c |-> rows[i].c, kind |-> rows[i].kind, rhs |-> Rhs(i), off |-> rows[i].off, twin |-> rows[i].twin]],
              sol |-> sol, det |-> det, fault |-> fault, fails |-> Failing, decl |-> decl, target |-> Target,
              \* unknowns whose equation stands alone and uses nothing else
              alone |-> {j \in 1..N : \E i \in Ids : rows[i].kind = "eq" /\ Names(i) = {j} /\ \A q \in Ids : q # i => Names(q) # {j}},
              steps |-> Len(trail), largest |-> IF trail = <<>> THEN 0 ELSE CHOOSE k \in {Cardinality(trail[i]) : i \in 1..Len(trail)} : \A i \in 1..Len(trail) : Cardinality(trail[i]) <= k]))
        /\ UNCHANGED <<stage, nblocks, block, ops, rows, sol, fault, known, pool, det, trail, decl>>

Next == /\ ~fin
        /\ \E k \in {Pick(1..4)} :
             CASE stage = "blocks" -> IF block = <<>> THEN (IF nblocks < MinBlocks \/ (nblocks < MaxBlocks /\ k > 1)
                                                            THEN \E ring \in {MaxBlock > 2 /\ Pick(1..6) <= (IF MaxBlock > 4 THEN 3 ELSE 1)} : IF ring THEN Ring ELSE Open
                                                            ELSE Finish)
                                      ELSE IF Len(block) > 1 /\ ops < 2 * Len(block) + k THEN Mix ELSE Close
               [] stage = "twin" -> Twin
               [] stage = "declare" -> Declare
               [] OTHER -> IF Singles(pool, known) # {} THEN SolveOne ELSE IF Starts(pool, known) # {} THEN SolveSub ELSE Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every order of solving determines the same unknowns
Confluent == Stuck => known = det
\* what has been solved so far is always part of what is determined
Inside == stage = "solve" => known \subseteq det
=============================================================================
