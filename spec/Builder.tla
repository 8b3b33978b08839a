------------------------------- MODULE Builder -------------------------------
(* The builder of a system of equations (C07). An equation is the set of the   *)
(* undefined names it uses, and whether its text is valid. The state is what a *)
(* user sees: the unknowns of the system and how many equations were added.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxSteps, MaxList

VARIABLES phase, unk, count, hist, fin
vars == <<phase, unk, count, hist, fin>>

Equations == [names : SUBSET Names, valid : BOOLEAN]
Valid == {e \in Equations : e.valid}
Full(v, k) == Cardinality(v) = k
New(v, e) == Cardinality(e.names \ v)

\* What adding one equation does: the set of <<result, unknowns, count>>
Outcome(v, k, e) ==
    IF Full(v, k) THEN {<<"over", v, k>>}
    ELSE IF New(v, e) > 1
         \* an invalid equation may be recognised as such or as not constraining
         THEN {<<"not", v, k>>} \cup (IF e.valid THEN {} ELSE {<<"err", v, k>>})
    ELSE IF e.valid THEN {<<"will", v \cup e.names, k + 1>>}
    ELSE {<<"err", v, k>>}

\* Adding from a list: any order of the acceptable equations is allowed. The
\* equations left in the list are given as a set of positions.
RECURSIVE Closure(_, _, _, _)
Closure(v, k, L, left) ==
    LET near == IF Full(v, k) THEN {} ELSE {i \in left : New(v, L[i]) <= 1}
        acc == {i \in near : L[i].valid}
    IN (IF acc = {} THEN {<<"ok", v, k>>}
        ELSE UNION {Closure(v \cup L[i].names, k + 1, L, left \ {i}) : i \in acc})
       \* an invalid equation may be reported when it is come upon, or passed over
       \cup (IF near # acc THEN {<<"err", v, k>>} ELSE {})
       \cup (IF acc = {} /\ ~Full(v, k) /\ \E i \in left : ~L[i].valid THEN {<<"err", v, k>>} ELSE {})
ListOutcome(v, k, L) == Closure(v, k, L, 1..Len(L))

Step(op, e, L, outs, v, k) ==
    hist' = Append(hist, [op |-> op, eq |-> e, list |-> L, outs |-> outs, unk |-> v, full |-> Full(v, k), count |-> k])
NoEq == [names |-> {}, valid |-> TRUE]

Create(e) ==
    /\ phase = "none"
    /\ e.names # {}
    /\ IF e.valid
       THEN phase' = "open" /\ unk' = e.names /\ count' = 1 /\ Step("new", e, <<>>, {"ok"}, e.names, 1)
       ELSE UNCHANGED <<phase, unk, count>> /\ Step("new", e, <<>>, {"err"}, {}, 0)
Constrain(e) ==
    /\ phase = "open"
    /\ LET outs == Outcome(unk, count, e)
       IN \E o \in outs :
            /\ unk' = o[2] /\ count' = o[3]
            /\ Step("add", e, <<>>, {x[1] : x \in outs}, o[2], o[3])
    /\ UNCHANGED phase
AddList(L) ==
    /\ phase = "open"
    /\ LET outs == ListOutcome(unk, count, L)
       IN \E o \in outs :
            /\ unk' = o[2] /\ count' = o[3]
            /\ Step("list", NoEq, L, {<<x[1], x[2], Full(x[2], x[3])>> : x \in outs}, o[2], o[3])
            \* the implementation may make another choice than this one
            /\ phase' = IF Cardinality(outs) = 1 THEN "open" ELSE "forked"
Build ==
    /\ phase \in {"open", "forked"}
    /\ Step("build", NoEq, <<>>, {}, unk, count)
    /\ phase' = "none" /\ unk' = {} /\ count' = 0

Init == phase = "none" /\ unk = {} /\ count = 0 /\ hist = <<>> /\ fin = FALSE
Edge == PrintT("@@" \o ToJson([steps |-> hist']))
\* lists of one equation that is not valid, and all lists of valid ones
OneBad == {<<e>> : e \in {x \in Equations : ~x.valid /\ Cardinality(x.names) <= 2}}
SomeLists == UNION {[1..n -> {e \in Valid : Cardinality(e.names) <= 2}] : n \in 1..MaxList}

Next == /\ Len(hist) < MaxSteps /\ fin' = FALSE
        /\ \/ \E e \in Equations : Create(e) \/ Constrain(e)
           \/ \E L \in SomeLists \cup OneBad : AddList(L)
           \/ Build
        /\ Edge
Spec == Init /\ [][Next]_vars
View == <<phase, unk, count, Len(hist)>>

\* long random histories
Pick(S) == RandomElement(S)
RandEq(z) == LET S == {n \in Names : RandomElement(1..3) = 1} IN [names |-> S, valid |-> RandomElement(1..6) # 1]
NonEmpty(e) == IF e.names = {} THEN [e EXCEPT !.names = {RandomElement(Names)}] ELSE e
\* equations that tend to be acceptable
Near(z) == LET S == {n \in unk : RandomElement(1..2) = 1} \cup (IF RandomElement(1..3) = 1 THEN {RandomElement(Names)} ELSE {})
         IN [names |-> S, valid |-> RandomElement(1..8) # 1]
RandList(n) == [i \in 1..n |-> [RandEq(i) EXCEPT !.valid = TRUE]]
\* the same with invalid equations among them
MixedList(n) == [i \in 1..n |-> IF RandomElement(1..2) = 1 THEN Near(i) ELSE RandEq(i)]
\* a long list in which nothing but the last equation is acceptable at first
LateList(n) == LET far == Names \ unk IN
    [i \in 1..n |-> IF i = n \/ Cardinality(far) < 2 THEN [Near(i) EXCEPT !.valid = TRUE]
                   ELSE [names |-> {n1 \in far : RandomElement(1..2) = 1} \cup (CHOOSE S \in SUBSET far : Cardinality(S) = 2), valid |-> TRUE]]
DeepNext ==
    /\ ~fin
    /\ IF Len(hist) >= MaxSteps
       THEN fin' = TRUE /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<phase, unk, count, hist>>
       ELSE /\ fin' = FALSE
            /\ \E k \in {Pick(1..12)} :
                  IF phase = "none" THEN \E e \in {RandEq(0)}, n \in {Pick(Names)} : Create(NonEmpty(IF k <= 8 THEN [e EXCEPT !.names = @ \cup {n}, !.valid = @ \/ k <= 7] ELSE e))
                  ELSE IF phase = "forked" \/ k = 12 \/ (Full(unk, count) /\ k >= 8) THEN Build
                  ELSE IF k \in {10, 11} THEN \E n \in {Pick(1..MaxList)}, late \in {Pick(1..4)} : \E L \in {IF late = 1 THEN LateList(n + 4) ELSE IF late = 2 THEN MixedList(n + 1) ELSE RandList(n)} : AddList(L)
                  ELSE IF k <= 4 THEN \E e \in {RandEq(1)} : Constrain(e)
                  ELSE \E e \in {Near(1)} : Constrain(e)
DeepSpec == Init /\ [][DeepNext]_vars

-----------------------------------------------------------------------------
\* never more equations than unknowns
NeverOver == phase # "none" => count <= Cardinality(unk)
\* nothing is added to a fully constrained system
Closed == [][phase = "open" /\ phase' # "none" /\ Full(unk, count) => unk' = unk /\ count' = count]_vars
\* whether a list fully constrains the system does not depend on the order in
\* which its equations are considered, nor does the result when it does not
Confluent == phase = "open" => \A L \in SomeLists :
    LET outs == ListOutcome(unk, count, L)
    IN \/ \A o \in outs : Full(o[2], o[3])
       \/ Cardinality(outs) = 1
=============================================================================
