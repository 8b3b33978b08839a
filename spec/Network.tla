------------------------------- MODULE Network -------------------------------
(* Nodal analysis studies (C18). A network is a list of elements between      *)
(* nodes; every element has a flux from its input node to its output node:    *)
(*   "R" (resistor, conductor, convection): conductance * (pot in - pot out)  *)
(*   "C" (current source, heat flux): a set flux                              *)
(*   "V" (voltage source, temperature difference): pot out - pot in is set,   *)
(*       the flux is whatever balances                                        *)
(* Fixed nodes keep their potential; at every other node the fluxes balance.  *)
(* A network is built around potentials chosen beforehand: sources get the    *)
(* difference between their ends and every floating cluster of sources gets a *)
(* current source that balances it, so that the chosen potentials are the     *)
(* solution. Conductances and fluxes are counted in twentieths.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxExtra, MaxE

VARIABLES study, n, pot, fixed, els, todo, bad, fin
vars == <<study, n, pot, fixed, els, todo, bad, fin>>

Pick(S) == RandomElement(S)
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Nodes == 1..n
Deg == DOMAIN els

\* ------------------------------------------------------------ the theory
RECURSIVE Grow(_, _, _)
Grow(es, S, K) ==
    LET T == S \cup {es[k].o : k \in {j \in K : es[j].i \in S}} \cup {es[k].i : k \in {j \in K : es[j].o \in S}}
    IN IF T = S THEN S ELSE Grow(es, T, K)
Kind(es, ts) == {k \in DOMAIN es : es[k].t \in ts}
Cluster(es, v) == Grow(es, {v}, Kind(es, {"V"}))
Island(es, v) == Grow(es, {v}, Kind(es, {"R", "V"}))

Flux(e) == IF e.t = "R" THEN e.g * (pot[e.i] - pot[e.o]) ELSE e.g
RECURSIVE SumOver(_, _, _)
SumOver(es, S, K) ==   \* net flux of the elements K into the nodes S
    IF K = {} THEN 0
    ELSE LET k == CHOOSE k \in K : TRUE
         IN (IF es[k].o \in S THEN Flux(es[k]) ELSE 0) - (IF es[k].i \in S THEN Flux(es[k]) ELSE 0) + SumOver(es, S, K \ {k})
Into(es, S) == SumOver(es, S, Kind(es, {"R", "C"}))
SourceFlux(es, k) ==
    LET K == Kind(es, {"V"}) \ {k}
        a == Grow(es, {es[k].o}, K)  b == Grow(es, {es[k].i}, K)
    IN IF a \cap fixed = {} THEN -Into(es, a) ELSE Into(es, b)
ElFlux(es, k) == IF es[k].t = "V" THEN SourceFlux(es, k) ELSE Flux(es[k])

\* a source that may be added: it closes no loop of sources and does not join
\* two clusters that both have a fixed node
Legal(es, i, o) == /\ o \notin Cluster(es, i)
                   /\ Cluster(es, i) \cap fixed = {} \/ Cluster(es, o) \cap fixed = {}

Floating(es) == {Cluster(es, v) : v \in {v \in Nodes : Cluster(es, v) \cap fixed = {}}}
Grounded(es) == \A v \in Nodes : Island(es, v) \cap fixed # {}
\* the current sources that balance every floating cluster; pick(S) is one of S
RECURSIVE Balancers(_, _, _)
Balancers(es, F, rnd) ==
    IF F = {} \/ fixed = {} THEN <<>>
    ELSE LET c == CHOOSE c \in F : TRUE
             to == IF rnd THEN RandomElement(c) ELSE Min(c)
             from == IF rnd THEN RandomElement(fixed) ELSE Min(fixed)
             f == Into(es, c)
         IN (IF f = 0 THEN <<>> ELSE <<[t |-> "C", ty |-> "cs", i |-> from, o |-> to, g |-> -f, gain |-> <<<<-f, 20>>>>]>>)
            \o Balancers(es, F \ {c}, rnd)

\* -------------------------------------------------------------- elements
\* conductance in twentieths and the gain values that stand for it
Gains(s) == IF s = "dc_circuit"
            THEN {[ty |-> "res", g |-> 20 \div r, gain |-> <<<<r, 1>>>>] : r \in {1, 2, 4, 5, 10, 20}}
                 \cup {[ty |-> "res", g |-> 20 * q, gain |-> <<<<1, q>>>>] : q \in {2, 5, 10}}
            ELSE {[ty |-> "cond", g |-> g, gain |-> <<<<g, 20>>>>] : g \in {1, 5, 10, 20, 50}}
                 \cup {[ty |-> "conv", g |-> g, gain |-> <<<<g, 20>>>>] : g \in {2, 4, 20, 100}}
                 \cup {[ty |-> "cond", g |-> (20 * k) \div l, gain |-> <<<<l, 1>>, <<k, 1>>>>] : l \in {1, 2, 4, 5}, k \in {1, 3, 6}}
                 \cup {[ty |-> "cond", g |-> 20 * k * 10, gain |-> <<<<1, 10>>, <<k, 1>>>>] : k \in {1, 2}}
R(i, o, c) == [t |-> "R", ty |-> c.ty, i |-> i, o |-> o, g |-> c.g, gain |-> c.gain]
V(i, o, d) == [t |-> "V", ty |-> "vs", i |-> i, o |-> o, g |-> 0, gain |-> <<<<pot[o] - pot[i] + d, 1>>>>]
C(i, o, f) == [t |-> "C", ty |-> "cs", i |-> i, o |-> o, g |-> f, gain |-> <<<<f, 20>>>>]

Outcome(es) ==
    IF bad = "clash" THEN "err"
    ELSE IF bad = "loop" THEN "free"
    ELSE IF Grounded(es) THEN "ok"
    ELSE IF \E v \in Nodes : Island(es, v) \cap fixed = {} /\ SumOver(es, Island(es, v), Kind(es, {"C"})) # 0 THEN "err"
    ELSE "free"

\* the network es presented with the nodes renumbered by p
Show(es, p, hints) ==
    [study |-> study, n |-> n, outcome |-> Outcome(es),
     fixed |-> [v \in Nodes |-> v \in fixed], hints |-> hints,
     num |-> p, pot |-> pot,
     els |-> [k \in DOMAIN es |-> [ty |-> es[k].ty, i |-> p[es[k].i], o |-> p[es[k].o], gain |-> es[k].gain,
                                   flux |-> IF Outcome(es) = "ok" THEN ElFlux(es, k) ELSE 0]]]

\* the chosen potentials are a solution: every node that is not fixed balances
RECURSIVE Total(_, _, _)
Total(es, v, k) == IF k = 0 THEN 0
                   ELSE (IF es[k].o = v THEN ElFlux(es, k) ELSE 0) - (IF es[k].i = v THEN ElFlux(es, k) ELSE 0) + Total(es, v, k - 1)
Balanced(es) == Outcome(es) = "ok" => \A v \in Nodes \ fixed : Total(es, v, Len(es)) = 0

\* ------------------------------------------------- random, larger networks
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET e == Pick(S) IN <<e>> \o RandPerm(S \ {e})

Init == study = "" /\ n = 0 /\ pot = <<>> /\ fixed = {} /\ els = <<>> /\ todo = 0 /\ bad = "" /\ fin = FALSE
Size == \E s \in {Pick({"dc_circuit", "heat_transfer"})} : \E m \in {Pick(2..MaxN)} : \E x \in {Pick(1..20)} :
    /\ study' = s /\ n' = m
    /\ pot' = TLCEval([v \in 1..m |-> IF v > 1 /\ Pick(1..8) = 1 THEN 0 ELSE Pick((-9)..12)])
    /\ fixed' = TLCEval(IF x = 1 THEN {} ELSE {Pick(1..m)} \cup {v \in 1..m : Pick(1..6) = 1})
    /\ \E y \in {Pick(0..MaxExtra)} : todo' = m - 1 + y
    /\ UNCHANGED <<els, bad, fin>>
Add == \E i \in {IF todo > 0 /\ Len(els) < n - 1 THEN Pick(1..(Len(els) + 1)) ELSE Pick(Nodes)} :
       \E o \in {IF todo > 0 /\ Len(els) < n - 1 THEN Len(els) + 2 ELSE Pick(Nodes)} :
       \E sw \in {Pick(BOOLEAN)} : \E x \in {Pick(1..20)} :
       \E c \in {Pick(Gains(study))} : \E f \in {Pick((-80)..80)} :
       LET a == IF sw THEN o ELSE i  b == IF sw THEN i ELSE o
           tree == Len(els) < n - 1
       IN /\ els' = TLCEval(Append(els,
                 IF x <= 8 THEN R(a, b, c)
                 ELSE IF x <= 15 THEN (IF Legal(els, a, b) THEN V(a, b, 0) ELSE R(a, b, c))
                 ELSE IF x <= 18 THEN (IF tree THEN R(a, b, c) ELSE C(a, b, f))
                 ELSE IF tree \/ bad # "" \/ Legal(els, a, b) \/ Pick(1..4) > 1 THEN R(a, b, c)
                 ELSE V(a, b, IF f > 0 THEN f ELSE 0)))
          /\ bad' = IF els'[Len(els')].t = "V" /\ ~Legal(els, a, b)
                    THEN (IF els'[Len(els')].gain[1][1] # pot[b] - pot[a] THEN "clash" ELSE "loop") ELSE bad
          /\ todo' = todo - 1
          /\ UNCHANGED <<study, n, pot, fixed, fin>>
Finish == \E b \in {IF bad = "" THEN Balancers(els, Floating(els), TRUE) ELSE <<>>} :
          \E q \in {RandPerm(1..(Len(els) + Len(b)))} : \E p \in {RandPerm(Nodes)} :
          LET all == els \o b
              es == TLCEval([k \in DOMAIN all |-> all[q[k]]])
          IN /\ els' = es /\ fin' = TRUE
             /\ PrintT("@@" \o ToJson(Show(es, p, [v \in Nodes |-> IF Pick(1..5) = 1 THEN <<Pick(0..9)>> ELSE <<>>])))
             /\ UNCHANGED <<study, n, pot, fixed, todo, bad>>
Next == ~fin /\ (IF n = 0 THEN Size ELSE IF todo > 0 THEN Add ELSE Finish)
Spec == Init /\ [][Next]_vars
Sound == fin => Balanced(els)

\* --------------------- every small network, in every order and orientation
Base == <<0, 3, -2, 7>>
One(s) == CHOOSE c \in Gains(s) : c.g = 20 /\ Len(c.gain) = 1
InitE == /\ n \in {2, 3} /\ study \in {"dc_circuit"} /\ pot = Base
         /\ fixed \in SUBSET (1..n) /\ els = <<>> /\ todo = 0 /\ bad = "" /\ fin = FALSE
AddE == /\ Len(els) < MaxE
        /\ \E i, o \in Nodes : i # o /\ \E t \in {"R", "V"} :
             /\ els' = Append(els, IF t = "R" THEN R(i, o, One(study)) ELSE V(i, o, 0))
             /\ bad' = IF t = "V" /\ ~Legal(els, i, o) THEN "loop" ELSE bad
        /\ UNCHANGED <<study, n, pot, fixed, todo, fin>>
SpecE == InitE /\ [][AddE]_vars
Whole == LET b == IF bad = "" THEN Balancers(els, Floating(els), FALSE) ELSE <<>>
         IN IF Cardinality(fixed) = 2 THEN b \o els ELSE els \o b
SoundE == Balanced(Whole)
EmitE == els = <<>> \/ PrintT("@@" \o ToJson(Show(Whole, [v \in Nodes |-> v], [v \in Nodes |-> <<>>])))
=============================================================================
