-------------------------------- MODULE Wiring --------------------------------
(* Nodes and elements put together by hand (C26): the state of a network that  *)
(* a user builds with the constructors of the elements, GenericElement::try_new *)
(* and flux formulas of their own, looks at and takes apart again. After every  *)
(* call, everything that can be observed of the network is fixed by this state:  *)
(* the potentials, what is locked, which elements still exist, their fluxes and  *)
(* the balance of every node. Fluxes are in eighths.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxNodes, MaxEls, MaxSteps

VARIABLES dim, nodes, els, holds, hist, fin
vars == <<dim, nodes, els, holds, hist, fin>>

Pick(S) == RandomElement(S)
Err == <<"err">>

\* -------------------------------------------------------------- the network
N == DOMAIN nodes
E == DOMAIN els
Alive(n) == nodes[n].alive
\* an element exists as long as the user or a node it is connected to has it
Exists(e) == els[e].held \/ (els[e].cin /\ Alive(els[e].i)) \/ (els[e].cout /\ Alive(els[e].o))
Wired(e) == Alive(els[e].i) /\ Alive(els[e].o)
Drives(e) == els[e].ty = "obs"
\* fluxes and differences have a value for each component of a potential
Fits(e) == IF els[e].ty \in {"const", "obs"} THEN Len(els[e].g) = dim ELSE Len(els[e].g) > 0
Sub(e) == IF els[e].drv = "o" THEN els[e].o ELSE els[e].i
Dom(e) == IF els[e].drv = "o" THEN els[e].i ELSE els[e].o
\* the elements that drive a node; there is at most one (Inv)
Drivers(n) == {e \in E : Exists(e) /\ Drives(e) /\ Sub(e) = n /\ Wired(e) /\ Fits(e)}
Ins(n) == {e \in E : Exists(e) /\ els[e].cout /\ els[e].o = n}
Outs(n) == {e \in E : Exists(e) /\ els[e].cin /\ els[e].i = n}

RECURSIVE Above(_, _)
\* the nodes on which the potential of n depends, n included
Above(n, fuel) == IF fuel = 0 THEN {n} ELSE {n} \cup UNION {Above(Dom(e), fuel - 1) : e \in Drivers(n)}

Add(x, y) == [k \in DOMAIN x |-> x[k] + y[k]]
Scale(c, x) == [k \in DOMAIN x |-> c * x[k]]
Zero == [k \in 1..dim |-> 0]

RECURSIVE Pot(_)
\* the potential of a node, once the fluxes of the elements have been calculated
Pot(n) == IF Drivers(n) = {} THEN nodes[n].pot
          ELSE LET e == CHOOSE e \in Drivers(n) : TRUE
               IN Add(Pot(Dom(e)), Scale(IF els[e].drv = "o" THEN 1 ELSE -1, els[e].g))

RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN Zero ELSE LET e == CHOOSE e \in S : TRUE IN Add(f[e], Total(S \ {e}, f))

RECURSIVE Fails(_), Flux(_), Unbalanced(_)
\* whether the flux of an element cannot be calculated. Reading a node fails
\* while it is borrowed for writing; the node an element drives is written
Written(n) == holds[n] = "w"
Fails(e) == \/ ~Wired(e) \/ ~Fits(e) \/ els[e].ty = "fail"
            \/ els[e].ty # "const" /\ (Written(els[e].i) \/ Written(els[e].o))
            \/ Drives(e) /\ (holds[Sub(e)] # "" \/ \E a \in Ins(Sub(e)) \cup Outs(Sub(e)) : Fails(a))
NodeFails(n) == \E e \in Ins(n) \cup Outs(n) : Fails(e)
\* what flows into a node less what flows out of it
Unbalanced(n) == Add(Total(Ins(n), [e \in Ins(n) |-> Flux(e)]), Scale(-1, Total(Outs(n), [e \in Outs(n) |-> Flux(e)])))
Flux(e) == LET x == els[e]  vi == Pot(x.i)  vo == Pot(x.o)
           IN CASE x.ty = "lin" -> Scale(x.g[1], Add(vi, Scale(-1, vo)))
                [] x.ty = "const" -> Scale(8, x.g)
                [] x.ty = "prod" -> [k \in 1..dim |-> 8 * x.g[1] * vi[k] * (vo[k] + 1)]
                [] x.ty = "flag" -> Scale(8, IF x.drv = "o" THEN vi ELSE vo)
                \* the flux of a source is what the node it drives lacks
                [] OTHER -> Scale(IF x.drv = "o" THEN -1 ELSE 1, Unbalanced(Sub(e)))

Loop == \E n \in N : \E e \in Drivers(n) : n \in Above(Dom(e), Len(nodes))

\* ------------------------------------------------------------ what is seen
See == [nodes |-> [n \in N |-> IF ~Alive(n) THEN <<>>
                               ELSE <<Pot(n), nodes[n].locked, IF NodeFails(n) THEN Err ELSE Unbalanced(n)>>],
        els   |-> [e \in E |-> IF ~Exists(e) THEN <<>> ELSE <<IF Fails(e) THEN Err ELSE Flux(e)>>]]
NoHolds == \A n \in N : holds[n] = ""

\* --------------------------------------------------------------- the calls
Log(r) == hist' = TLCEval(Append(hist, r))
Vector(S) == [k \in 1..dim |-> Pick(S)]
Volts == -4..6


NewNode == /\ Len(nodes) < MaxNodes /\ NoHolds
           /\ \E v \in {TLCEval(IF dim = 1 /\ Pick(1..4) = 1 THEN <<1>> ELSE Vector(Volts))} :
              /\ nodes' = Append(nodes, [alive |-> TRUE, pot |-> v, locked |-> FALSE])
              /\ holds' = Append(holds, "")
              /\ Log([op |-> "node", v |-> v])
           /\ UNCHANGED <<dim, els, fin>>

Free(n) == Alive(n) /\ holds[n] = ""
SetPot == \E n \in {Pick(N)} : \E v \in {TLCEval(Vector(Volts))} :
          /\ nodes' = IF Free(n) THEN [nodes EXCEPT ![n].pot = v] ELSE nodes
          /\ Log([op |-> "set", n |-> n, v |-> v, ok |-> Free(n)])
          /\ UNCHANGED <<dim, els, holds, fin>>
Lock == \E n \in {Pick(N)} :
          /\ nodes' = IF Free(n) THEN [nodes EXCEPT ![n].locked = TRUE] ELSE nodes
          /\ Log([op |-> "lock", n |-> n, ok |-> Free(n)])
          /\ UNCHANGED <<dim, els, holds, fin>>
Read == \E n \in {Pick(N)} :
          /\ Log([op |-> "read", n |-> n, ok |-> Alive(n) /\ holds[n] # "w", locked |-> nodes[n].locked])
          /\ UNCHANGED <<dim, nodes, els, holds, fin>>
Ask == E # {} /\ \E e \in {Pick(E)} :
          /\ Exists(e)
          \* a constant flux may or may not need to look at the nodes
          /\ \A a \in E : ~(els[a].ty = "const" /\ (Written(els[a].i) \/ Written(els[a].o)))
          /\ Log([op |-> "flux", e |-> e, ok |-> ~Fails(e)])
          /\ UNCHANGED <<dim, nodes, els, holds, fin>>
Hold == \E n \in {Pick(N)} : \E h \in {Pick({"r", "w"})} :
          /\ Free(n)
          /\ holds' = [holds EXCEPT ![n] = h]
          /\ Log([op |-> "hold", n |-> n, h |-> h])
          /\ UNCHANGED <<dim, nodes, els, fin>>
Release == /\ ~NoHolds /\ holds' = [n \in N |-> ""]
           /\ Log([op |-> "release"])
           /\ UNCHANGED <<dim, nodes, els, fin>>

\* what is left of potentials that were driven by an element that is gone
Left(ns2, es2) == [n \in N |-> IF ns2[n].alive THEN [ns2[n] EXCEPT !.pot = Pot(n)] ELSE ns2[n]]
DropNode == \E n \in {Pick(N)} :
          /\ Alive(n) /\ NoHolds
          /\ nodes' = Left([nodes EXCEPT ![n].alive = FALSE], els)
          /\ Log([op |-> "dropnode", n |-> n])
          /\ UNCHANGED <<dim, els, holds, fin>>
DropEl == E # {} /\ \E e \in {Pick(E)} :
          /\ els[e].held /\ NoHolds
          /\ els' = [els EXCEPT ![e].held = FALSE]
          /\ nodes' = Left(nodes, els)
          /\ Log([op |-> "dropel", e |-> e])
          /\ UNCHANGED <<dim, holds, fin>>

\* ------------------------------------------------------------ new elements
Made(e, c, gain, ok) ==
    /\ holds[e.i] = "" /\ holds[e.o] = ""
    /\ els' = IF ok THEN Append(els, e) ELSE els
    /\ Log([op |-> "make", c |-> c, e |-> e, gain |-> gain, ok |-> ok])
    /\ UNCHANGED <<dim, holds, fin>>
Element(ty, i, o, g, drv, cin, cout) == [ty |-> ty, i |-> i, o |-> o, g |-> g, drv |-> drv, cin |-> cin, cout |-> cout, held |-> TRUE]
Count(lens) == IF Pick(1..14) = 1 THEN Pick(0..3) ELSE Pick(lens)
\* mostly another node
Other(i) == IF Len(nodes) = 1 \/ Pick(1..12) = 1 THEN Pick(N) ELSE Pick(N \ {i})
Gain(k, S) == [j \in 1..k |-> Pick(S)]

\* an element whose flux depends on the potentials as it gives (a conductance in
\* eighths), or is given
Plain == \E c \in {Pick({"resistor", "conductor", "convection_interface", "current_source", "heat_flux"})} :
         \E k \in {Count(IF c = "conductor" THEN {1, 2} ELSE {1})} :
         \E i \in {Pick(N)} : \E o \in {Other(i)} :
         \E x \in {TLCEval(IF c \in {"current_source", "heat_flux"} THEN Gain(k, -3..5) ELSE Gain(k, {1, 2, 4, 8}))} :
         LET lens == IF c = "conductor" THEN {1, 2} ELSE {1}
             good == k \in lens
             lin == c \notin {"current_source", "heat_flux"}
             g == CASE ~good -> <<1>> [] ~lin -> x [] c = "resistor" -> <<8 \div x[1]>>
                    [] k = 2 -> <<(8 * x[2]) \div x[1]>> [] OTHER -> <<8 * x[1]>>
             ok == good /\ Alive(i) /\ Alive(o)
         IN /\ Len(els) < MaxEls
            /\ lin \/ dim = 1 \/ Pick(1..4) = 1
            /\ Made(Element(IF lin THEN "lin" ELSE "const", i, o, g, "", TRUE, TRUE), c, x, ok)
            /\ UNCHANGED nodes

\* a source drives its output, or its input when the output is locked
Source == \E c \in {Pick({"voltage_source", "temperature_delta"})} : \E k \in {Count({1})} :
          \E i \in {Pick(N)} : \E o \in {Other(i)} : \E x \in {TLCEval(Gain(k, -3..5))} :
          LET drv == IF nodes[o].locked THEN "i" ELSE "o"
              sub == IF drv = "o" THEN o ELSE i
              ok == k = 1 /\ dim = 1 /\ Alive(i) /\ Alive(o) /\ ~(nodes[i].locked /\ nodes[o].locked)
          IN /\ dim = 1 \/ Pick(1..4) = 1
             /\ i # o /\ Len(els) < MaxEls
             /\ (ok => Drivers(sub) = {} /\ \A n \in Above(IF drv = "o" THEN i ELSE o, Len(nodes)) : n # sub \/ Pick(1..10) = 1)
             /\ nodes' = IF ok THEN [nodes EXCEPT ![sub].locked = TRUE] ELSE nodes
             /\ Made(Element("obs", i, o, IF k = 1 THEN x ELSE <<0>>, drv, drv = "o", drv = "i"), c, x, ok)

Components == IF Pick(1..12) = 1 THEN Pick(1..3) ELSE dim
\* an element of one's own: it is connected where its constructor says
Own == \E ty \in {Pick({"lin", "const", "prod", "flag", "fail"})} : \E i \in {Pick(N)} : \E o \in {Pick(N)} :
       \E drv \in {Pick({"i", "o"})} : \E cin \in {Pick({TRUE, TRUE, FALSE})} : \E cout \in {Pick({TRUE, TRUE, FALSE})} :
       \* the formula for a linear element takes the first of its gains
       \E x \in {TLCEval(Gain(IF ty = "const" THEN Components ELSE IF ty = "lin" /\ Pick(1..4) = 1 THEN Pick(0..3) ELSE 1, 1..4))} :
       LET ok == Alive(i) /\ Alive(o)
           g == IF ty = "lin" /\ x # <<>> THEN <<8 * x[1]>> ELSE x
       IN /\ Len(els) < MaxEls /\ (ty = "fail" => Pick(1..3) = 1)
          /\ Made(Element(ty, i, o, g, drv, cin, cout), "own", x, ok)
          /\ UNCHANGED nodes
\* a source of one's own, with a value for each component; it locks nothing
OwnSource == \E i \in {Pick(N)} : \E o \in {Other(i)} : \E drv \in {Pick({"i", "o"})} : \E c \in {Pick({TRUE, TRUE, FALSE})} :
             \E x \in {TLCEval(Gain(Components, -3..5))} :
             LET sub == IF drv = "o" THEN o ELSE i
                 ok == TRUE
             IN /\ i # o /\ Len(els) < MaxEls /\ Alive(i) /\ Alive(o) /\ Drivers(sub) = {}
                /\ sub \notin Above(IF drv = "o" THEN i ELSE o, Len(nodes))
                /\ Made(Element("obs", i, o, x, drv, c /\ drv = "o", c /\ drv = "i"), "own", x, ok)
                /\ UNCHANGED nodes

\* the last step is one after which sources drive each other in a circle: the
\* fluxes of those in it cannot be calculated
Circle == IF \E e \in E : Exists(e) /\ Drives(e) /\ ~els[e].cin /\ ~els[e].cout THEN {} ELSE {e \in E : Exists(e) /\ Drives(e) /\ Wired(e) /\ Sub(e) \in Above(Dom(e), Len(nodes))}

Emit(last) == PrintT("@@" \o ToJson([dim |-> dim, steps |-> hist, circle |-> last]))
Finish == /\ ~fin /\ (Len(hist) >= MaxSteps \/ Loop) /\ (Loop \/ NoHolds)
          /\ Emit(IF Loop THEN Circle ELSE {}) /\ fin' = TRUE /\ UNCHANGED <<dim, nodes, els, holds, hist>>

Step == \/ NewNode \/ NewNode \/ SetPot \/ SetPot \/ Lock \/ Read \/ Ask \/ Hold \/ Release \/ Release
        \/ DropNode \/ DropEl \/ DropEl \/ Plain \/ Plain \/ Plain \/ Source \/ Source \/ Source \/ Own \/ Own \/ OwnSource

\* after every call without borrowed nodes, everything is looked at
Look == [op |-> "look"] @@ See
Next == \/ /\ ~fin /\ Len(hist) < MaxSteps /\ ~Loop
           /\ IF Len(nodes) < 3 /\ (hist = <<>> \/ hist[Len(hist)].op = "look") THEN NewNode ELSE IF hist # <<>> /\ NoHolds /\ hist[Len(hist)].op \notin {"look", "hold"}
              THEN Log(TLCEval(Look)) /\ UNCHANGED <<dim, nodes, els, holds, fin>> ELSE Step
        \/ Finish
        \/ fin /\ UNCHANGED vars

Init == /\ dim \in {1, 2} /\ nodes = <<>> /\ els = <<>> /\ holds = <<>> /\ hist = <<>> /\ fin = FALSE
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------- what the laws give
OneDriver == \A n \in N : Cardinality(Drivers(n)) <= 1
SourceLaw == ~Loop => \A n \in N : \A e \in Drivers(n) : Add(Pot(els[e].o), Scale(-1, Pot(els[e].i))) = els[e].g
\* nothing is lost: when every element is there at both ends, the balances of the
\* nodes that are not driven add up to nothing
Whole(e) == Exists(e) => ~Fails(e) /\ (IF Drives(e) THEN els[e].cin \/ els[e].cout ELSE els[e].cin /\ els[e].cout)
Conserved == (~Loop /\ \A n \in N : Alive(n)) /\ (\A e \in E : Whole(e))
             => Total({n \in N : Drivers(n) = {}}, [n \in N |-> Unbalanced(n)]) = Zero
Inv == OneDriver /\ SourceLaw /\ Conserved
===============================================================================
