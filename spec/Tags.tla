--------------------------------- MODULE Tags ---------------------------------
(* Tags that the user interface builds into the page (C22): the elements of    *)
(* the page, the ids known to the application, and the handles given out. An   *)
(* element is [id, kind, cls, text, cbs] (cbs: event -> label of the callback) *)
(* and its children; a handle is [id, built, cbs]. Ids are symbolic: "s.." are  *)
(* in the page from the start, "t.." are chosen by the user, "g.." are          *)
(* generated; "p.." are the names that the generator would choose next.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, TagIds, Labels

VARIABLES els, kids, reg, handles, builders, ngen, next, hist, fin
vars == <<els, kids, reg, handles, builders, ngen, next, hist, fin>>
(* els: uid -> element; kids: uid -> sequence of uids; 0 is the body            *)

Pick(S) == RandomElement(S)
Static == {"s1", "s2"}
Predicted == {"p0", "p1", "p2"}
Gen(k) == "g" \o ToString(k)
Events == {"onclick", "onmouseover", "onmouseenter", "onmouseleave", "onmouseup", "onmousedown"}
NoCbs == [e \in Events |-> ""]
Body == 0

RECURSIVE Below(_, _)
\* the elements of the subtree of u, in document order
Below(u, k) == LET S(v) == Below(v, k)
               IN <<u>> \o (LET F[i \in 0..Len(k[u])] == IF i = 0 THEN <<>> ELSE F[i - 1] \o S(k[u][i]) IN F[Len(k[u])])
Page == Below(Body, kids)
InPage == {Page[i] : i \in DOMAIN Page}
IdsInPage == {els[u].id : u \in InPage \ {Body}}
Find(id) == CHOOSE u \in InPage \ {Body} : els[u].id = id
Parent(u) == CHOOSE p \in InPage : \E i \in DOMAIN kids[p] : kids[p][i] = u
\* remove a subtree from the tables
Prune(e, gone) == [u \in DOMAIN e \ gone |-> e[u]]
Set(s) == {s[i] : i \in DOMAIN s}

El(id, kind, cls, text, cbs) == [id |-> id, kind |-> kind, cls |-> cls, text |-> text, cbs |-> cbs]
Init == /\ els = (0 :> El("", "body", "", "", NoCbs)) @@ (1 :> El("s1", "div", "c0", "", NoCbs)) @@ (2 :> El("s2", "span", "", "words", NoCbs))
        /\ kids = (0 :> <<1, 2>>) @@ (1 :> <<>>) @@ (2 :> <<>>)
        /\ reg = {} /\ handles = <<>> /\ builders = <<>> /\ ngen = 0 /\ next = 3 /\ hist = <<>> /\ fin = FALSE

\* what one sees of the page: the elements in document order with their depth
RECURSIVE Depth(_, _)
Depth(u, k) == IF u = Body THEN 0 ELSE 1 + Depth(CHOOSE p \in DOMAIN k : \E i \in DOMAIN k[p] : k[p][i] = u, k)
View(e, k) == LET P == Below(Body, k) IN [i \in 1..(Len(P) - 1) |-> [el |-> e[P[i + 1]], depth |-> Depth(P[i + 1], k)]]
Log(op, out, e, k) == hist' = Append(hist, [op |-> op, out |-> out, page |-> View(e, k)])

Register == \E id \in {Pick(Static \cup TagIds \cup (IF ngen = 0 THEN Predicted ELSE {}))} :
            /\ Log([op |-> "register", id |-> id], IF id \in reg THEN "error" ELSE "ok", els, kids)
            /\ reg' = reg \cup {id}
            /\ handles' = IF id \in reg THEN handles ELSE Append(handles, [id |-> id, built |-> FALSE, cbs |-> NoCbs])
            /\ UNCHANGED <<els, kids, builders, ngen, next, fin>>
\* a generated id is one that is not known (the check maps it to the name given;
\* one that is no longer known could be generated again)
Given == {Gen(k) : k \in 0..(ngen - 1)}
Generate == /\ Log([op |-> "generate", id |-> Gen(ngen)], "fresh", els, kids)
            /\ reg' = reg \cup {Gen(ngen)} /\ ngen' = ngen + 1
            /\ UNCHANGED <<els, kids, handles, builders, next, fin>>
\* a handle yields the element with its id, with its callbacks attached
Attach(h, e) == LET u == Find(h.id) IN IF h.built THEN [e EXCEPT ![u].cbs = h.cbs] ELSE e
Get == handles # <<>> /\
       \E i \in {Pick(DOMAIN handles)} :
       LET h == handles[i]
       IN IF h.id \in IdsInPage
          THEN /\ els' = TLCEval(Attach(h, els)) /\ Log([op |-> "get", h |-> i], "ok", Attach(h, els), kids)
               /\ UNCHANGED <<kids, reg, handles, builders, ngen, next, fin>>
          ELSE /\ reg' = IF h.built THEN reg \ {h.id} ELSE reg
               /\ Log([op |-> "get", h |-> i], "error", els, kids)
               /\ UNCHANGED <<els, kids, handles, builders, ngen, next, fin>>
(* A builder may be used again: what was set stays set, what was built stays    *)
(* as it was built (from: the builder used, 0: a new one).                      *)
Fresh(kind) == [kind |-> kind, cls |-> "", text |-> "", cbs |-> NoCbs]
Build(append) ==
    /\ handles # <<>>
    /\ \E i \in {Pick(DOMAIN handles)}, from \in {IF Pick(1..3) = 1 THEN Pick(0..Len(builders)) ELSE 0} :
       \E id \in {Pick((TagIds \cup Given) \ IdsInPage)} :
       \E kind \in {Pick({"div", "span", "strong", "i"})}, cls \in {Pick({"", "c1", "c1 c2"})}, text \in {Pick({"", "abc", "X", "one two"})},
          \* callbacks: set in some order, some of them twice
          sets \in {[j \in 1..Pick(0..3) |-> <<Pick(Events), Pick(Labels)>>]} :
       LET h == handles[i]
           base == IF from = 0 THEN Fresh(kind) ELSE builders[from]
           op == [op |-> "build", h |-> i, id |-> id, from |-> from, kind |-> kind, cls |-> cls, text |-> text, sets |-> sets, append |-> append]
           cbs == [e \in Events |-> LET J == {j \in DOMAIN sets : sets[j][1] = e} IN IF J = {} THEN base.cbs[e] ELSE sets[CHOOSE j \in J : \A q \in J : q <= j][2]]
           now == [kind |-> base.kind, cls |-> IF cls = "" THEN base.cls ELSE cls, text |-> IF text = "" THEN base.text ELSE text, cbs |-> cbs]
       IN IF h.id \notin IdsInPage
          THEN \* what becomes of the ids is left open
               /\ Log(op, "error", els, kids) /\ fin' = TRUE /\ UNCHANGED <<els, kids, reg, handles, builders, ngen, next>>
          ELSE LET p == Find(h.id)
                   gone == IF append THEN {} ELSE Set(Below(p, kids)) \ {p}
                   k2 == Prune([kids EXCEPT ![p] = (IF append THEN @ ELSE <<>>) \o <<next>>] @@ (next :> <<>>), gone)
                   e1 == Attach(h, els)
                   e2 == Prune((IF append THEN e1 ELSE [e1 EXCEPT ![p].text = ""]) @@ (next :> El(id, now.kind, now.cls, now.text, cbs)), gone)
               IN /\ Log(op, "ok", e2, k2)
                  /\ kids' = TLCEval(k2) /\ els' = TLCEval(e2) /\ reg' = reg \cup {id} /\ next' = next + 1
                  /\ handles' = Append(handles, [id |-> id, built |-> TRUE, cbs |-> cbs])
                  /\ builders' = TLCEval(IF from = 0 THEN Append(builders, now) ELSE [builders EXCEPT ![from] = now])
                  /\ UNCHANGED <<ngen, fin>>
Drop == \E id \in {Pick(TagIds \cup Static \cup Given)} :
        LET yes == id \in reg /\ id \notin IdsInPage
        IN /\ Log([op |-> "drop", id |-> id], IF yes THEN "true" ELSE "false", els, kids)
           /\ reg' = IF yes THEN reg \ {id} ELSE reg
           /\ UNCHANGED <<els, kids, handles, builders, ngen, next, fin>>
\* an element leaves the page by other means
Remove == InPage # {Body} /\
          \E u \in {Pick(InPage \ {Body})} :
          LET p == Parent(u)
              gone == Set(Below(u, kids))
              k2 == Prune([kids EXCEPT ![p] = SelectSeq(@, LAMBDA v : v # u)], gone)
              e2 == Prune(els, gone)
          IN /\ Log([op |-> "remove", id |-> els[u].id], "", e2, k2)
             /\ kids' = TLCEval(k2) /\ els' = TLCEval(e2) /\ UNCHANGED <<reg, handles, builders, ngen, next, fin>>

Over == fin \/ Len(hist) >= MaxOps
Restart == /\ PrintT("@@" \o ToJson([hist |-> hist]))
           /\ els' = (0 :> El("", "body", "", "", NoCbs)) @@ (1 :> El("s1", "div", "c0", "", NoCbs)) @@ (2 :> El("s2", "span", "", "words", NoCbs))
           /\ kids' = (0 :> <<1, 2>>) @@ (1 :> <<>>) @@ (2 :> <<>>)
           /\ reg' = {} /\ handles' = <<>> /\ builders' = <<>> /\ ngen' = 0 /\ next' = 3 /\ hist' = <<>> /\ fin' = FALSE
Step == \E x \in {Pick(1..24)} :
        IF handles = <<>> \/ x <= 3 THEN Register
        ELSE IF x <= 5 THEN (IF Given \subseteq reg THEN Generate ELSE Drop)
        ELSE IF x <= 12 THEN Build(TRUE)
        ELSE IF x <= 14 THEN Build(FALSE)
        ELSE IF x <= 19 THEN Get
        ELSE IF x <= 22 THEN Drop
        ELSE IF InPage = {Body} THEN Get ELSE Remove
Next == IF Over THEN Restart ELSE Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* no two elements of the page have the same id
OneEach == \A u, v \in InPage \ {Body} : els[u].id = els[v].id => u = v
\* what was built and is still in the page is known to the application
Known == \A u \in InPage \ {Body} : u > 2 => els[u].id \in reg
Tables == DOMAIN els = DOMAIN kids /\ InPage = DOMAIN els
=============================================================================
