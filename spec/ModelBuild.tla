------------------------------ MODULE ModelBuild ------------------------------
(* Building, saving, loading and running network models (C19). The state is   *)
(* the model of a builder; every call either changes it as shown here or is    *)
(* refused and leaves it. Numbers stand for node indices from 0, as a user     *)
(* gives them.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps

VARIABLES live, cfg, m, hist, fin
vars == <<live, cfg, m, hist, fin>>

Pick(S) == RandomElement(S)

\* ------------------------------------------------------------- what is known
\* a configuration: name -> [dim, types]; the default one and one of a user
Default == [dc_circuit    |-> [dim |-> 1, types |-> {"resistor", "voltage_source", "current_source"}],
            heat_transfer |-> [dim |-> 1, types |-> {"conductor", "convection_interface", "temperature_delta", "heat_flux"}]]
\* elements with one component, in a study whose potentials have two
Misfit == {"lift", "spring"}
Own == [mine |-> [dim |-> 1, types |-> {"wire", "pump"}], plane |-> [dim |-> 2, types |-> {"wire", "inflow"} \cup Misfit]]
Config == IF cfg = "own" THEN Own ELSE Default
Kind(ty) == CASE ty \in {"resistor", "conductor", "convection_interface", "wire"} -> "R"
              [] ty \in {"voltage_source", "temperature_delta", "pump"} -> "V"
              [] OTHER -> "C"
GainLens(ty) == IF ty = "conductor" THEN {1, 2} ELSE IF ty = "inflow" THEN {2} ELSE {1}

\* ------------------------------------------------------- what a model gives
Known == m.study \in DOMAIN Config
Dim == Config[m.study].dim
Invalid == \/ ~Known
           \/ \E i \in DOMAIN m.conf : i >= m.nodes \/ Len(m.conf[i].pot) # Dim
           \/ \E k \in DOMAIN m.els : LET e == m.els[k] IN
                 \/ e.ty \notin Config[m.study].types \/ e.ty \in Misfit
                 \/ e.i >= m.nodes \/ e.o >= m.nodes
                 \/ Len(e.gain) \notin GainLens(e.ty)
Net == INSTANCE Network WITH MaxN <- 0, MaxExtra <- 0, MaxE <- 0, study <- "", n <- m.nodes, pot <- <<>>, els <- <<>>,
                             todo <- 0, bad <- "", fin <- FALSE,
                             fixed <- {i + 1 : i \in {j \in DOMAIN m.conf : m.conf[j].lock}}
Es(k) == [j \in 1..k |-> [t |-> Kind(m.els[j].ty), i |-> m.els[j].i + 1, o |-> m.els[j].o + 1]]
Determined == /\ Net!Grounded(Es(Len(m.els)))
              /\ \A k \in DOMAIN m.els : Kind(m.els[k].ty) = "V" => Net!Legal(Es(k - 1), m.els[k].i + 1, m.els[k].o + 1)
Outcome == IF Invalid THEN "err" ELSE IF Determined THEN "ok" ELSE "free"

\* -------------------------------------------------------------------- calls
Blank(s) == [study |-> s, nodes |-> 0, conf |-> <<>>, els |-> <<>>]
\* names that are like a known one but are not
Astray(x) == {"x" \o x, x \o "s", " " \o x, x \o " ", x \o "\n"}
Studies == {"dc_circuit", "heat_transfer", "mine", "plane", "ssdc_circuit", "DC_CIRCUIT", "dc", "Mine", ""}
AllTypes == {"resistor", "voltage_source", "current_source", "conductor", "convection_interface", "temperature_delta", "heat_flux",
             "wire", "pump", "inflow", "lift", "diode", "Resistor", ""}
\* values are numbered; the check chooses the floats
Values(k) == [j \in 1..k |-> Pick(1..40)]
Len1(d) == IF Pick(1..14) = 1 THEN Pick(0..3) ELSE d
Log(r) == hist' = TLCEval(Append(hist, r))

ToList == [k \in 1..Cardinality(DOMAIN m.conf) |->
             LET S == DOMAIN m.conf  i == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1
             IN [i |-> i, pot |-> m.conf[i].pot, lock |-> m.conf[i].lock, meta |-> m.conf[i].meta]]
Snapshot == [study |-> m.study, nodes |-> m.nodes, conf |-> ToList, els |-> m.els]

New == \E c \in {Pick({"default", "default", "own"})} :
       \E s \in {IF Pick(1..8) = 1 THEN Pick(Studies) ELSE IF Pick(1..8) = 1 THEN Pick(Astray(Pick(DOMAIN (IF c = "own" THEN Own ELSE Default)))) ELSE Pick(IF c = "own" THEN DOMAIN Own ELSE DOMAIN Default)} :
       LET ok == s \in DOMAIN (IF c = "own" THEN Own ELSE Default)
       IN /\ live' = ok /\ cfg' = c /\ m' = Blank(s)
          /\ Log([op |-> "new", cfg |-> c, study |-> s, ok |-> ok])
          /\ UNCHANGED fin
Nodes == \E k \in {IF Pick(1..20) = 1 THEN Pick(8..13) ELSE Pick(0..3)} : /\ m' = [m EXCEPT !.nodes = @ + k] /\ Log([op |-> "nodes", k |-> k, ok |-> TRUE])
                                 /\ UNCHANGED <<live, cfg, fin>>
Conf == \E i \in {IF m.nodes = 0 \/ Pick(1..15) = 1 THEN Pick(0..9) ELSE Pick(0..(m.nodes - 1))} :
        \E v \in {TLCEval(Values(Len1(Dim)))} : \E l \in {Pick({TRUE, TRUE, FALSE})} : \E k \in {Pick(0..3)} :
        LET c == [pot |-> v, lock |-> l, meta |-> k]
        IN /\ m' = [m EXCEPT !.conf = TLCEval((i :> c) @@ @)]
           /\ Log([op |-> "conf", i |-> i, pot |-> v, lock |-> l, meta |-> k, ok |-> TRUE])
           /\ UNCHANGED <<live, cfg, fin>>
Elem == \E t \in {IF Pick(1..20) = 1 THEN Pick(AllTypes) ELSE IF Pick(1..40) = 1 THEN Pick(Astray(Pick(Config[m.study].types)))
                 ELSE Pick(IF Pick(1..12) = 1 THEN Config[m.study].types ELSE Config[m.study].types \ Misfit)} :
        \E i \in {IF m.nodes = 0 \/ Pick(1..15) = 1 THEN m.nodes + Pick(0..2) ELSE Pick(0..(m.nodes - 1))} :
        \E o \in {IF m.nodes = 0 \/ Pick(1..15) = 1 THEN m.nodes + Pick(0..2) ELSE Pick(0..(m.nodes - 1))} :
        \E g \in {TLCEval(Values(Len1(Pick(GainLens(t)))))} :
        LET e == [ty |-> t, i |-> i, o |-> o, gain |-> g]  ok == i < m.nodes /\ o < m.nodes
        IN /\ m' = IF ok THEN [m EXCEPT !.els = Append(@, e)] ELSE m
           /\ Log([op |-> "elem", e |-> e, ok |-> ok])
           /\ UNCHANGED <<live, cfg, fin>>
Save == Log([op |-> "save", model |-> Snapshot, ok |-> TRUE]) /\ UNCHANGED <<live, cfg, m, fin>>
Run == Log([op |-> "run", model |-> Snapshot, outcome |-> Outcome, ok |-> Outcome = "ok"]) /\ UNCHANGED <<live, cfg, m, fin>>
\* loading a text: an independent text of the model, the same with an entry that
\* no call could have put in, or a damaged text. The builder of the text replaces
\* the present one, with the default configuration.
Damage == {"field", "type", "cut", "tail", "negative", "fraction", "key", "none"}
Load == \E how \in {IF Pick(1..3) = 1 THEN Pick(Damage) ELSE "text"} :
        \E ed \in {Pick({"", "", "", "el_in", "el_out", "el_type", "conf", "study"})} :
        \E x \in {Pick(0..3)} : \E a \in {IF m.els = <<>> THEN 0 ELSE Pick(DOMAIN m.els)} :
        \E new \in {TLCEval(IF ed = "el_in" /\ a > 0 THEN [m EXCEPT !.els[a].i = m.nodes + x]
                   ELSE IF ed = "el_out" /\ a > 0 THEN [m EXCEPT !.els[a].o = m.nodes + x]
                   ELSE IF ed = "el_type" /\ a > 0 THEN [m EXCEPT !.els[a].ty = Pick({"diode"} \cup Astray(@))]
                   ELSE IF ed = "conf" THEN [m EXCEPT !.conf = TLCEval(((m.nodes + x) :> [pot |-> <<1>>, lock |-> FALSE, meta |-> 0]) @@ @)]
                   ELSE IF ed = "study" THEN [m EXCEPT !.study = Pick({"ssdc_circuit"} \cup Astray(@))] ELSE m)} :
           /\ Log([op |-> "load", how |-> how, same |-> new = m /\ cfg = "default", ok |-> how = "text", model |->
                   [study |-> new.study, nodes |-> new.nodes, els |-> new.els,
                    conf |-> ToList \o (IF new.conf = m.conf THEN <<>> ELSE <<[i |-> m.nodes + x, pot |-> <<1>>, lock |-> FALSE, meta |-> 0]>>)]])
           /\ m' = IF how = "text" THEN new ELSE m
           /\ cfg' = IF how = "text" THEN "default" ELSE cfg
           /\ UNCHANGED <<live, fin>>
\* extending a configuration with element types, an own one with or without repeats
Types == \E q \in {[j \in 1..Pick(1..5) |-> Pick({"a", "b", "c", "d", "e", "f"})]} :
         LET dup(k) == \E j \in 1..(k - 1) : q[j] = q[k]
             first == {k \in DOMAIN q : dup(k)}
         IN /\ Log([op |-> "types", names |-> q, refused |-> IF first = {} THEN 0 ELSE CHOOSE k \in first : \A j \in first : k <= j, ok |-> TRUE])
            /\ UNCHANGED <<live, cfg, m, fin>>

Init == live = FALSE /\ cfg = "default" /\ m = Blank("") /\ hist = <<>> /\ fin = FALSE
Step == \E x \in {Pick(1..40)} :
        IF ~live \/ x = 1 THEN New
        ELSE IF ~Known THEN (IF x < 10 THEN New ELSE IF x < 20 THEN Save ELSE Run)
        ELSE IF Invalid /\ x <= 12 THEN New
        ELSE IF Outcome = "ok" /\ m.els # <<>> /\ x <= 8 THEN Run
        ELSE IF m.nodes = 0 /\ x <= 32 THEN Nodes
        ELSE IF x <= 4 /\ m.nodes < 5 THEN Nodes
        ELSE IF x <= 14 THEN Conf
        ELSE IF x <= 27 THEN Elem
        ELSE IF x <= 30 THEN Save
        ELSE IF x <= 35 THEN Run
        ELSE IF x <= 39 THEN Load
        ELSE Types
Next == /\ ~fin
        /\ IF Len(hist) >= MaxSteps
           THEN fin' = TRUE /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<live, cfg, m, hist>>
           ELSE Step
Spec == Init /\ [][Next]_vars
\* a model made by calls only never has an element at a node that does not exist
Built == (live /\ \A k \in DOMAIN hist : hist[k].op # "load") => \A k \in DOMAIN m.els : m.els[k].i < m.nodes /\ m.els[k].o < m.nodes
=============================================================================
