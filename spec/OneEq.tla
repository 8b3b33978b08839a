-------------------------------- MODULE OneEq --------------------------------
(* Histories of single equations solved with one context (C09). Each equation  *)
(* is chosen with its roots; the specification says which outcomes are allowed *)
(* for the guess and domain it is solved with. The context (the known names    *)
(* and their values) is the state of the caller and never changes.             *)
EXTENDS Poly

CONSTANTS MaxSolves

VARIABLES ctx, eqs, fin
ovars == <<roots, lead, guess, phase, ctx, eqs, fin>>

Pick(S) == RandomElement(S)
Kinds == {"linear", "outside", "poly", "mono", "noroot", "nounknown", "two", "malformed"}
NoDom == <<>>

(* Monotone functions and the side of the root from which Newton's method      *)
(* approaches it without passing it (where f * f'' > 0)                        *)
Monos == {"exp", "ln", "cube", "recip", "root", "sinh"}
Side(m) == IF m \in {"exp", "cube", "sinh"} THEN 1 ELSE -1

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* A domain: none, around the root(s) S and guess g, or around g but not S.     *)
(* rel = 1 excludes                                                             *)
Dom(S, g, rel, a, b) ==
    IF rel = 0 THEN NoDom
    ELSE IF rel = 1 /\ g \notin S
         THEN (IF g > SetMax(S) THEN <<g - ((g - SetMax(S)) - 1) - 0, g + b>> ELSE <<g - a, SetMin(S) - 1>>)
         ELSE <<SetMin(S \cup {g}) - a, SetMax(S \cup {g}) + b>>
Has(d, r) == d = NoDom \/ (d[1] <= r /\ r <= d[2])
\* the guess must lie inside the domain, and the domain be more than a point
Room(d, g) == d = NoDom \/ (d[1] <= g /\ g <= d[2] /\ d[1] < d[2])

Blank == [kind |-> "", coefs |-> <<>>, consts |-> <<>>, roots |-> {}, lead |-> 0, form |-> "", guess |-> 1, dom |-> NoDom, ok |-> FALSE, root |-> 0, bad |-> 0, free |-> FALSE]

Solve(e) == eqs' = Append(eqs, e) /\ UNCHANGED <<roots, lead, guess, phase, ctx, fin>>

Linear == \E r \in {Pick(-9..9)}, k \in {Pick(1..3)}, m \in {Pick(0..3)}, g \in {Pick(-12..12)}, rel \in {Pick({0, 0, 1, 2, 2})}, a \in {Pick(0..6)}, b \in {Pick(0..6)} :
    \E cs \in {[i \in 1..k |-> Pick({-3, -2, -1, 1, 2, 4})]}, ds \in {[i \in 1..m |-> Pick(-7..7)]} :
       LET s == Sum(cs)
           d == Dom({r}, g, rel, a, b)
       IN /\ IF s = 0 \/ ~Room(d, g) THEN UNCHANGED ovars
             ELSE Solve([Blank EXCEPT !.kind = "linear", !.coefs = cs, !.consts = Append(ds, -(s * r) - Sum(ds)),
                           !.guess = g, !.dom = d, !.ok = Has(d, r), !.root = r])
PolyEq == \E k \in {Pick(1..3)}, ld \in {Pick({1, -1, 3})}, reach \in {Pick(1..Reach)}, up \in {Pick({TRUE, FALSE})},
             rel \in {Pick({0, 1, 2, 2})}, a \in {Pick(0..6)}, b \in {Pick(0..6)}, form \in {Pick({"factored", "expanded"})} :
    \E S \in {{Pick((-MaxRoot)..MaxRoot) : i \in 1..k}} :
       LET g == IF up THEN SetMax(S) + reach ELSE SetMin(S) - reach
           t == IF up THEN SetMax(S) ELSE SetMin(S)
           d == Dom(S, g, rel, a, b)
       IN IF ~Room(d, g) THEN UNCHANGED ovars
          ELSE Solve([Blank EXCEPT !.kind = "poly", !.roots = S, !.lead = ld, !.coefs = Expand(S, <<ld>>), !.form = form,
                        !.guess = g, !.dom = d, !.ok = Has(d, t), !.root = t])
Mono == \E away \in {Pick(1..2)}, m \in {Pick(Monos)}, r \in {Pick(2..6)}, step \in {Pick(1..3)}, rel \in {Pick({0, 1, 2, 2})}, b \in {Pick(1..6)} :
       \* within a domain the search may start on either side: a step that passes the
       \* root ends at the bound at the latest, on the side that leads to the root
       LET far == (rel = 2 /\ away = 1)
           g == IF far THEN (IF Side(m) = 1 THEN (IF r - step < 1 THEN 1 ELSE r - step) ELSE r + step)
                ELSE IF Side(m) = 1 THEN r + step ELSE IF r - step < 1 THEN 1 ELSE r - step
           \* (functions that are not defined everywhere keep to positive numbers)
           d == IF rel = 0 THEN NoDom
                ELSE IF rel = 1 THEN (IF g > r THEN <<r + 1, g + b>> ELSE <<0, r - 1>>)
                ELSE IF far THEN <<1, 9 + b>> ELSE <<0, 9 + b>>
       IN IF ~Room(d, g) THEN UNCHANGED ovars
          ELSE Solve([Blank EXCEPT !.kind = "mono", !.form = m, !.guess = g, !.dom = d, !.ok = Has(d, r), !.root = r])
(* A guess outside the domain: a root in the domain may be missed, but nothing   *)
(* else may be returned                                                        *)
Outside == \E k \in {Pick(1..2)}, ld \in {Pick({1, -1, 2})}, lo \in {Pick(-9..9)}, w \in {Pick(1..9)}, far \in {Pick(1..12)}, up \in {Pick({TRUE, FALSE})},
              form \in {Pick({"factored", "expanded"})} :
    \E S \in {{Pick((-MaxRoot)..MaxRoot) : i \in 1..k}} :
       LET d == <<lo, lo + w>>
           in == {r \in S : d[1] < r /\ r < d[2]}
       IN IF S \cap {d[1], d[2]} # {} THEN UNCHANGED ovars
          ELSE Solve([Blank EXCEPT !.kind = "poly", !.roots = S, !.lead = ld, !.coefs = Expand(S, <<ld>>), !.form = form, !.free = Cardinality(S) > 1,
                        !.guess = IF up THEN d[2] + far ELSE d[1] - far, !.dom = d, !.ok = in # {}, !.root = SetMax(IF in = {} THEN S ELSE in)])
\* forms without a root, and texts that are no equation in one unknown
Refused(kind) == \E b \in {Pick(0..11)}, g \in {Pick(-9..9)}, rel \in {Pick({0, 2})}, c \in {Pick(1..9)} :
       Solve([Blank EXCEPT !.kind = kind, !.bad = b, !.consts = <<c>>, !.guess = g, !.dom = Dom({}, g, 0, 0, 0)])

OInit == roots = {} /\ lead = 0 /\ guess = 0 /\ phase = "roots" /\ ctx = {} /\ eqs = <<>> /\ fin = FALSE
ONext == /\ ~fin
         /\ IF Len(eqs) >= MaxSolves
            THEN fin' = TRUE /\ PrintT("@@" \o ToJson([solves |-> eqs])) /\ UNCHANGED <<roots, lead, guess, phase, ctx, eqs>>
            ELSE \E kind \in {Pick(Kinds)}, again \in {Pick(1..2)} :
                   CASE kind = "linear" \/ (again = 1 /\ kind \notin {"poly", "mono", "outside"}) -> Linear
                     [] kind = "poly" -> PolyEq
                     [] kind = "mono" -> Mono
                     [] kind = "outside" -> Outside
                     [] OTHER -> Refused(kind)
OSpec == OInit /\ [][ONext]_ovars

\* the guess of a polynomial with a root to find lies beyond the outermost root,
\* and an allowed root is inside the domain
Sound == \A i \in 1..Len(eqs) :
    LET e == eqs[i] IN
    /\ e.ok => Has(e.dom, e.root)
    /\ e.kind = "poly" /\ ~e.free => \A r \in e.roots : At(e.coefs, r) = 0 /\ (IF e.guess > e.root THEN r <= e.root ELSE r >= e.root)
    /\ e.kind = "linear" => Sum(e.coefs) * e.root + Sum(e.consts) = 0
    /\ (e.kind \in {"poly", "linear"} /\ ~e.ok /\ ~e.free) => ~Has(e.dom, e.root)
    /\ e.free => (e.ok <=> \E r \in e.roots : Has(e.dom, r)) /\ ~Has(e.dom, e.guess)
=============================================================================
