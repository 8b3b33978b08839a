------------------------------ MODULE Procedure ------------------------------
(* Traces recorded from the real solver (C21): the procedure that comes with a *)
(* solution must be a behaviour of the search that Program.tla specifies. A    *)
(* run gives the unknowns of each equation, the equations of each step in the  *)
(* order reported, the unknown that a step of one equation names (0: none),    *)
(* and the unknowns that have a value in the result.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Runs == JsonDeserialize("runs.json")

VARIABLES run, at, known, pool, verdict
vars == <<run, at, known, pool, verdict>>

Range(s) == {s[i] : i \in DOMAIN s}
Names(i) == Range(Runs[run].rows[i])
Unk(i) == Names(i) \ known
Steps == Runs[run].steps
Asked(S) == UNION {Unk(i) : i \in S}

Init == /\ run \in DOMAIN Runs /\ at = 0 /\ known = {} /\ verdict = ""
        /\ pool = DOMAIN Runs[run].rows

\* why a step is not one of the search, or ""
Wrong(st) ==
    LET S == Range(st.eqs)
    IN IF S = {} THEN "a step without equations"
       ELSE IF Cardinality(S) # Len(st.eqs) THEN "an equation twice in a step"
       ELSE IF ~(S \subseteq pool) THEN "an equation that is used already"
       ELSE IF Asked(S) = {} THEN "a step that determines nothing"
       ELSE IF Cardinality(S) # Cardinality(Asked(S)) THEN "as many equations as unknowns"
       ELSE IF st.var # 0 /\ Asked(S) # {st.var} THEN "the unknown of a step"
       ELSE ""
Step == /\ verdict = "" /\ at < Len(Steps)
        /\ LET st == Steps[at + 1]  w == Wrong(st)
           IN /\ verdict' = w
              /\ known' = IF w = "" THEN known \cup Asked(Range(st.eqs)) ELSE known
              /\ pool' = IF w = "" THEN pool \ Range(st.eqs) ELSE pool
        /\ at' = at + 1 /\ UNCHANGED run
(* At the end the unknowns solved are the ones that have a value, and no        *)
(* equation with a single unknown is left.                                      *)
End == /\ verdict = "" /\ at = Len(Steps)
       /\ verdict' = IF known # Range(Runs[run].result) THEN "the unknowns with a value"
                     ELSE IF \E i \in pool : Cardinality(Unk(i)) = 1 THEN "an equation that could be solved"
                     ELSE "accepted"
       /\ UNCHANGED <<run, at, known, pool>>
Tell == /\ verdict \notin {"", "told"} /\ verdict' = "told"
        /\ PrintT("@@" \o ToJson([run |-> run, at |-> at, verdict |-> verdict]))
        /\ UNCHANGED <<run, at, known, pool>>
Next == Step \/ End \/ Tell
Spec == Init /\ [][Next]_vars
Solved == known \subseteq UNION {Names(i) : i \in DOMAIN Runs[run].rows}
=============================================================================
