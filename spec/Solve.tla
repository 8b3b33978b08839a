-------------------------------- MODULE Solve --------------------------------
(* Solving a built system (C08): a system of equations with a known solution   *)
(* is generated (as in LinSys, and polynomial ones), put in orders in which    *)
(* the builder accepts every equation, its unknowns are given guesses and      *)
(* domains in any order and any number of times, and it is solved.             *)
EXTENDS LinSys

CONSTANTS MaxSpecs

VARIABLES kind, terms, orders, dom, guess, specs, stage
all == <<n, mat, sol, ops, fin, kind, terms, orders, dom, guess, specs, stage>>

\* the unknowns that row i of the system uses
RowVars(i) == IF kind # "lin" THEN UNION {{terms[i][k].vars[q] : q \in 1..Len(terms[i][k].vars)} : k \in 1..Len(terms[i])}
              ELSE {j \in 1..n : mat[i][j] # 0}
(* An order of the rows that starts with row i and in which each row is        *)
(* accepted: not yet fully constrained, and at most one new unknown            *)
RECURSIVE Greedy(_, _, _)
Greedy(seq, v, left) ==
    IF left = {} THEN {seq}
    ELSE LET acc == IF Cardinality(v) = Len(seq) THEN {} ELSE {i \in left : Cardinality(RowVars(i) \ v) <= 1}
         IN IF acc = {} THEN {} ELSE UNION {Greedy(Append(seq, i), v \cup RowVars(i), left \ {i}) : i \in {Pick(acc)}}
OrdersFrom(z) == UNION {Greedy(<<i>>, RowVars(i), (1..n) \ {i}) : i \in 1..n}

\* polynomial systems: each row a sum of products of at most two unknowns
RECURSIVE Val(_)
Val(ts) == IF ts = <<>> THEN 0
           ELSE Head(ts).c * (IF Len(Head(ts).vars) = 0 THEN 1 ELSE IF Len(Head(ts).vars) = 1 THEN sol[Head(ts).vars[1]]
                              ELSE sol[Head(ts).vars[1]] * sol[Head(ts).vars[2]]) + Val(Tail(ts))
RandTerm(m) == [c |-> Pick({-2, -1, 1, 1, 2}), vars |-> IF Pick(1..3) = 1 THEN <<Pick(1..m), Pick(1..m)>> ELSE <<Pick(1..m)>>]
RandRow(m) == [k \in 1..Pick(1..3) |-> RandTerm(m)]
\* derivative of row i in unknown j at the solution
RECURSIVE Der(_, _)
Der(ts, j) == IF ts = <<>> THEN 0
    ELSE LET t == Head(ts)
         IN t.c * (IF Len(t.vars) = 1 THEN (IF t.vars[1] = j THEN 1 ELSE 0)
                   ELSE (IF t.vars[1] = j THEN sol[t.vars[2]] ELSE 0) + (IF t.vars[2] = j THEN sol[t.vars[1]] ELSE 0))
            + Der(Tail(ts), j)
Jac == [i \in 1..n |-> [j \in 1..n |-> Der(terms[i], j)]]

SInit == Init /\ kind = "" /\ terms = <<>> /\ orders = {} /\ dom = <<>> /\ guess = <<>> /\ specs = <<>> /\ stage = "make"
NoDom == <<>>
Same == UNCHANGED <<orders, dom, guess, specs>>

MakeLin == /\ IF n = 0 THEN Size ELSE AddRow
           /\ kind' = "lin" /\ UNCHANGED <<terms, stage>> /\ Same
MakePoly == /\ n = 0 /\ kind' = "poly"
            /\ \E m \in {Pick(2..3)} :
                  /\ n' = m
                  /\ sol' = [i \in 1..m |-> Pick({-3, -2, 2, 3, 4})]
                  /\ \E t \in {[i \in 1..m |-> RandRow(m)]} : terms' = t
            /\ mat' = <<>> /\ ops' = 0 /\ stage' = "order" /\ UNCHANGED fin /\ Same
(* One quadratic equation: its two roots, the one to be found being the one     *)
(* beyond which the guess lies                                                 *)
MakeQuad == /\ n = 0 /\ kind' = "quad" /\ n' = 1
            /\ \E a \in {Pick({-2, -1, 1, 3})}, t \in {Pick(-6..6)}, d \in {Pick({-7, -4, -2, -1, 1, 3, 5})} :
                  /\ sol' = <<t>>
                  /\ terms' = <<<<[c |-> a, vars |-> <<1, 1>>], [c |-> -(a * (t + t + d)), vars |-> <<1>>]>>>>
            /\ mat' = <<>> /\ ops' = 0 /\ stage' = "order" /\ UNCHANGED fin /\ Same
Other == -(terms[1][2].c \div terms[1][1].c) - sol[1]
Settled == /\ IF sol[1] > Other THEN guess[1] >= sol[1] ELSE guess[1] <= sol[1]
           /\ dom[1] = NoDom \/ (dom[1][1] <= guess[1] /\ guess[1] <= dom[1][2] /\ dom[1][1] <= sol[1] /\ sol[1] <= dom[1][2])
\* any guess and domain, or (good) one that leads to the root
Settle == \E good \in {Pick(BOOLEAN)}, g0 \in {Pick(-12..12)}, off \in {IF Pick(1..6) = 1 THEN Pick({50, 3000, 2000000, 7000000}) ELSE Pick(0..8)}, a \in {Pick(0..5)}, b \in {Pick(1..5)}, inf \in {Pick(1..4)} :
          LET g == IF ~good THEN g0 ELSE IF sol[1] > Other THEN sol[1] + off ELSE sol[1] - off
              lo == IF good /\ sol[1] < g THEN sol[1] ELSE g
              hi == IF good /\ sol[1] > g THEN sol[1] ELSE g
              d == IF inf = 1 THEN NoDom ELSE IF ~good /\ inf = 2 THEN <<g + 1, g + 1 + b>> ELSE IF inf = 3 THEN <<lo - b, hi + a>> ELSE <<lo - a, hi + b>>
          IN /\ specs' = Append(specs, [j |-> 1, guess |-> g, dom |-> d])
             /\ dom' = <<d>> /\ guess' = <<g>>
             /\ UNCHANGED <<n, mat, sol, ops, fin, kind, terms, orders, stage>>
Enough == kind = "lin" /\ n >= 1 /\ (n = 1 \/ ops >= n + Pick(0..(n + 3)))
ToOrder == stage = "make" /\ stage' = "order" /\ UNCHANGED <<n, mat, sol, ops, fin, kind, terms, orders, dom, guess, specs>>
DoOrder == /\ stage = "order"
           /\ \E O \in {OrdersFrom(0)} :
                 IF O = {} \/ (kind # "lin" /\ (Det(Jac, 0) = 0 \/ \E i \in 1..n : RowVars(i) = {}))
                 THEN IF kind = "lin" /\ ops < 60 THEN AddRow /\ UNCHANGED <<stage, kind, terms>> /\ Same
                      ELSE fin' = TRUE /\ UNCHANGED <<n, mat, sol, ops, kind, terms, stage>> /\ Same
                 ELSE /\ orders' = O
                      /\ stage' = "spec"
                      /\ dom' = [i \in 1..n |-> NoDom]
                      /\ guess' = [i \in 1..n |-> 1]
                      /\ UNCHANGED <<n, mat, sol, ops, fin, kind, terms, specs>>
(* Give unknown j (or, with j = 0, a name that is none of the unknowns) a guess *)
(* and a domain; the domain contains the solution or lies beside it            *)
Specify == /\ stage = "spec"
           /\ \E j \in {Pick(0..n)}, w \in {Pick({0, 0, 1, 2, 4, 7, 9})}, up \in {Pick({0, 0, 1, 3, 6, 9})}, beside \in {Pick(1..12)}, inf \in {Pick(1..5)} :
                 IF j = 0 THEN /\ specs' = Append(specs, [j |-> 0, guess |-> 0, dom |-> <<-1, 1>>]) /\ UNCHANGED <<dom, guess>>
                 ELSE LET lo == IF beside = 1 /\ kind = "lin" THEN sol[j] + 1 + w ELSE sol[j] - w
                          hi == IF beside = 1 /\ kind = "lin" THEN lo + 4 ELSE sol[j] + (IF w + up = 0 THEN 1 ELSE up)
                      IN \E g \in {IF kind = "poly" THEN sol[j] ELSE Pick(lo..hi)} :
                         \E d \in {IF inf = 1 THEN NoDom ELSE <<lo, hi>>} :
                            /\ specs' = Append(specs, [j |-> j, guess |-> g, dom |-> d])
                            /\ dom' = [dom EXCEPT ![j] = d]
                            /\ guess' = [guess EXCEPT ![j] = g]
           /\ UNCHANGED <<n, mat, sol, ops, fin, kind, terms, orders, stage>>
RECURSIVE Seen(_, _)
Seen(o, k) == IF k = 0 THEN {} ELSE RowVars(o[k]) \cup Seen(o, k - 1)
(* Orders whose last equation brings no new unknown: with that equation         *)
(* replaced by a contradiction of the first one the system has no solution     *)
Spare == {o \in orders : n > 1 /\ Cardinality(Seen(o, n - 1)) = n}
Inside == \A j \in 1..n : dom[j] = NoDom \/ (dom[j][1] <= sol[j] /\ sol[j] <= dom[j][2])
\* every unknown has a guess: at the solution of a polynomial system (the harness moves it a little)
Near == \A j \in 1..n : \E k \in 1..Len(specs) : specs[k].j = j
Solve == /\ stage = "spec" /\ fin' = TRUE
         /\ PrintT("@@" \o ToJson([n |-> n, kind |-> kind, mat |-> mat, terms |-> terms, sol |-> sol,
                       rhs |-> IF kind = "lin" THEN Rhs ELSE [i \in 1..n |-> Val(terms[i])],
                       orders |-> orders, spare |-> Spare, specs |-> specs, dom |-> dom, guess |-> guess, ok |-> Inside, near |-> Near]))
         /\ UNCHANGED <<n, mat, sol, ops, kind, terms, orders, dom, guess, specs, stage>>
SNext == /\ ~fin
         /\ \E k \in {Pick(1..10)} :
              CASE stage = "make" -> IF n = 0 THEN (IF k <= 3 THEN MakePoly ELSE IF k = 4 THEN MakeQuad ELSE MakeLin)
                                     ELSE IF Enough THEN ToOrder ELSE MakeLin
                [] stage = "order" -> DoOrder
                [] kind = "quad" -> IF (Settled /\ (k <= 3 \/ Len(specs) >= MaxSpecs)) THEN Solve ELSE Settle
                [] OTHER -> IF Len(specs) < MaxSpecs /\ k > 2 /\ (kind = "lin" \/ ~Near) THEN Specify ELSE Solve
SSpec == SInit /\ [][SNext]_all

SRegular == kind = "lin" /\ n \in 1..4 => Abs(Det(mat, 0)) = 1
\* every order offered is one in which the builder takes all equations
Accepted == \A o \in orders : \A k \in 1..n :
    /\ k > 1 => /\ Cardinality(Seen(o, k) \ Seen(o, k - 1)) <= 1
                /\ Cardinality(Seen(o, k - 1)) > k - 1
    /\ Cardinality(Seen(o, n)) = n
=============================================================================
