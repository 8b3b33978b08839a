--------------------------------- MODULE Poly ---------------------------------
(* Polynomials with distinct real roots, and guesses beyond the outermost one  *)
(* on either side (C05, C09). From such a guess Newton's method moves towards  *)
(* the outermost root and never past it (the polynomial is convex or concave   *)
(* there), so that root is the one that is found. Beyond is checked here on    *)
(* the exact first step; the code is then run from the guess.                  *)
EXTENDS Rational, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRoot, MaxDeg, Reach

VARIABLES roots, lead, guess, phase
vars == <<roots, lead, guess, phase>>

SetMax(S) == CHOOSE a \in S : \A b \in S : b <= a
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b

\* coefficients, lowest degree first
Times(p, r) == [i \in 1..(Len(p) + 1) |-> (IF i > 1 THEN p[i - 1] ELSE 0) - (IF i <= Len(p) THEN r * p[i] ELSE 0)]
RECURSIVE Expand(_, _)
Expand(S, p) == IF S = {} THEN p ELSE LET r == SetMin(S) IN Expand(S \ {r}, Times(p, r))
Coefs == Expand(roots, <<lead>>)
RECURSIVE Horner(_, _, _)
Horner(p, v, i) == IF i > Len(p) THEN 0 ELSE p[i] + v * Horner(p, v, i + 1)
At(p, v) == Horner(p, v, 1)
Deriv(p) == [i \in 1..(Len(p) - 1) |-> i * p[i + 1]]

Init == roots = {} /\ lead = 0 /\ guess = 0 /\ phase = "roots"
Root == /\ phase = "roots" /\ Cardinality(roots) < MaxDeg
        /\ \E r \in (-MaxRoot)..MaxRoot : r \notin roots /\ (\A q \in roots : q < r) /\ roots' = roots \cup {r}
        /\ UNCHANGED <<lead, guess, phase>>
Start == /\ phase = "roots" /\ roots # {}
         /\ lead' \in {1, -1, 3}
         /\ guess' \in {SetMax(roots) + k : k \in {1, Reach}} \cup {SetMin(roots) - k : k \in {1, Reach}}
         /\ phase' = "done" /\ UNCHANGED roots
Next == Root \/ Start
Spec == Init /\ [][Next]_vars

Target == IF guess > SetMax(roots) THEN SetMax(roots) ELSE SetMin(roots)
IsRoot == phase = "done" => \A r \in roots : At(Coefs, r) = 0
\* f' has one sign from the target to the guess, so the step is towards the
\* target; f'' has the sign of f there, so it does not pass it
Beyond == phase = "done" =>
    LET y == At(Coefs, guess)  d == At(Deriv(Coefs), guess)
        s == IF guess > Target THEN 1 ELSE -1
    IN /\ d # 0
       /\ y * d * s > 0
       \* |y / d| < |guess - target|
       /\ Abs(y) \div Abs(d) <= Abs(guess - Target)
Emit == phase # "done" \/ PrintT("@@" \o ToJson([roots |-> roots, lead |-> lead, coefs |-> Coefs, guess |-> guess, target |-> Target]))
=============================================================================
