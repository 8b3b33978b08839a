-------------------------------- MODULE Decor --------------------------------
(* What the lines of a program mean (C11): a program is a sequence of items -  *)
(* equations, constants, guesses, domains and comments (which may contain the  *)
(* text of any item) - and its meaning is the fold of the items that are not   *)
(* comments. The specification adds items one at a time, in any order, keeping *)
(* the meaning as its state; the meaning must not depend on the order.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems, Consts, Unknowns, Idle, Subs, Other
(* Other: a name that is in no item, but may be declared or known before         *)
(* Subs: constants whose value is a physical constant or a conversion factor    *)

VARIABLES items, cval, gval, dval, roots, plan, bad, fin
vars == <<items, cval, gval, dval, roots, plan, bad, fin>>
(* cval, gval, dval, roots: the meaning: values of constants, guesses, domains, *)
(* and the value that each unknown is solved to                                 *)
(* bad: an item names an unknown constant or unit                             *)
(* plan: what is going to be declared, so that equations can refer to it        *)

Pick(S) == RandomElement(S)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
None == <<>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Val(r) == IF r[1] = "n" THEN r[2] ELSE plan.consts[r[2]]
RECURSIVE Sum(_)
Sum(ts) == IF ts = <<>> THEN 0 ELSE Val(Head(ts)) + Sum(Tail(ts))
Ref(z) == IF Pick(1..2) = 1 THEN <<"n", Pick(1..9)>> ELSE <<"k", Pick(Consts)>>

Blank == [t |-> "", name |-> "", v |-> 0, lo |-> 0, hi |-> 0, eq |-> None, inner |-> None]
ItemNames == {"const", "guess", "keep"}

(* The equation that determines unknown x:                                      *)
(* <<"lin", coefficients, constants, root>>: sum(coefs) * x + sum(consts) = 0    *)
(* <<"pow", sign, constant, power>>: x = sign * constant ^ power                 *)
(* <<"quad", r1, r2>> with the guess beyond both, or 1                           *)
(* <<"phys", m, p>>: x = m * (a physical constant) ^ p;  <<"conv", m, p>>        *)
(* <<"sub", m, p, s>>: x = m * s ^ p with a constant s of Subs                   *)
LinSet == UNION {UNION {UNION {{IF Sum(cs) = 0 THEN <<"lin", <<<<"n", 1>>>>, <<<<"n", -r>>>>, r>>
                                 ELSE <<"lin", cs, Append(ds, <<"n", -(Sum(cs) * r) - Sum(ds)>>), r>>}
                 : ds \in {[i \in 1..Pick(0..2) |-> Ref(i)]}} : cs \in {[i \in 1..Pick(1..2) |-> Ref(i)]}} : r \in {Pick(-6..6)}}
QuadSet(x) ==
    LET g == plan.guess[x]  d == plan.dom[x]
    IN IF g = None THEN {<<"quad", Pick(2..5), Pick(2..5)>>, <<"quad", Pick(-5..0), Pick(-5..0)>>}
       ELSE {<<"quad", g[1] + Pick(1..4), g[1] + Pick(1..4)>>, <<"quad", g[1] - Pick(1..4), g[1] - Pick(1..4)>>}
Solution(e, x) ==
    CASE e[1] = "lin"  -> <<e[4]>>
      [] e[1] = "pow"  -> <<e[2] * Pow(plan.consts[e[3]], e[4])>>
      [] e[1] = "quad" -> LET g == IF plan.guess[x] = None THEN 1 ELSE plan.guess[x][1]
                          IN <<IF g > e[2] THEN (IF e[2] > e[3] THEN e[2] ELSE e[3]) ELSE IF e[2] < e[3] THEN e[2] ELSE e[3]>>
      [] OTHER         -> <<>>          \* a decimal number that the check computes

-----------------------------------------------------------------------------
MakePlan ==
    /\ plan = None
    /\ \E c \in {[n \in Consts |-> Pick({-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7})]},
          g \in {[x \in Unknowns \cup Idle |-> IF Pick(1..2) = 1 THEN None ELSE <<Pick(-9..9)>>]},
          w \in {[x \in Unknowns \cup Idle |-> IF Pick(1..3) > 1 THEN None ELSE <<Pick(1..8), Pick(2..9)>>]},
          q \in {[x \in Unknowns \cup Idle \cup Other |-> IF Pick(1..3) > 1 THEN None ELSE <<Pick(-3..3), Pick(10..30), Pick(10..30)>>]} :
          plan' = [consts |-> c, guess |-> g, subs |-> [n \in Subs |-> Pick({"phys", "conv"})],
                   prior |-> [x \in Unknowns \cup Idle \cup Other |-> IF q[x] = None THEN None
                              ELSE LET b == IF g[x] = None THEN 1 ELSE g[x][1]    \* within the domain that the program keeps
                                       s == IF x \in Other \cup Idle \/ w[x] = None THEN q[x][1] ELSE b + Max(-w[x][1], Min(w[x][2] - 1, q[x][1]))
                                   IN <<s, s - q[x][2], s + q[x][3]>>],
                   known |-> IF Pick(1..3) > 1 THEN <<>> ELSE Pick(Consts \cup Other) :> Pick(10..99),
                   dom |-> [x \in Unknowns \cup Idle |-> IF w[x] = None THEN None
                             \* of a name that is in no equation, the guess may lie anywhere
                             ELSE LET s == IF x \in Idle THEN Pick(-20..20) ELSE IF g[x] = None THEN 1 ELSE g[x][1]
                                  IN <<s - w[x][1], s + w[x][2]>>]]
    /\ UNCHANGED <<items, cval, gval, dval, roots, bad, fin>>

Add(it) == items' = Append(items, it) /\ bad' = (bad \/ it.t = "bad") /\ UNCHANGED <<plan, fin>>
ConstItem(n) == [Blank EXCEPT !.t = "const", !.name = n, !.v = plan.consts[n]]
SubItem(n) == [Blank EXCEPT !.t = "sub", !.name = n, !.inner = plan.subs[n]]
GuessItem(x) == [Blank EXCEPT !.t = "guess", !.name = x, !.v = plan.guess[x][1]]
KeepItem(x) == [Blank EXCEPT !.t = "keep", !.name = x, !.lo = plan.dom[x][1], !.hi = plan.dom[x][2]]
EqItem(x, e) == [Blank EXCEPT !.t = "eq", !.name = x, !.eq = e]

AddConst(n) == n \notin DOMAIN cval /\ cval' = cval @@ (n :> plan.consts[n]) /\ Add(ConstItem(n)) /\ UNCHANGED <<gval, dval, roots>>
AddSub(n) == n \notin DOMAIN cval /\ cval' = cval @@ (n :> plan.subs[n]) /\ Add(SubItem(n)) /\ UNCHANGED <<gval, dval, roots>>
AddGuess(x) == x \notin DOMAIN gval /\ plan.guess[x] # None /\ gval' = gval @@ (x :> plan.guess[x][1]) /\ Add(GuessItem(x)) /\ UNCHANGED <<cval, dval, roots>>
AddKeep(x) == x \notin DOMAIN dval /\ plan.dom[x] # None /\ dval' = dval @@ (x :> plan.dom[x]) /\ Add(KeepItem(x)) /\ UNCHANGED <<cval, gval, roots>>
EqSet(x) == CASE Pick(1..5) = 1 -> {<<"pow", Pick({1, -1}), Pick(Consts), Pick(2..3)>>}
              [] Pick(1..3) = 1 -> QuadSet(x)
              [] Pick(1..6) = 1 -> {<<"sub", Pick({1, 2, 3, -2}), Pick({1, 1, 2, -1}), Pick(Subs)>>}
              [] Pick(1..3) = 1 -> {<<Pick({"phys", "conv"}), Pick({1, 2, 3, -2}), Pick({1, 1, 2, -1})>>}
              [] OTHER          -> LinSet
AddEq(x) == /\ x \notin DOMAIN roots
            /\ \E S \in {EqSet(x)} : \E e \in {Pick(S)} :
                  roots' = roots @@ (x :> Solution(e, x)) /\ Add(EqItem(x, e))
            /\ UNCHANGED <<cval, gval, dval>>
\* a comment with the text of an item that has other values, or of no item
AddComment(k, n) == /\ Add([Blank EXCEPT !.t = "comment", !.inner =
                          CASE k = 1 -> [Blank EXCEPT !.t = "const", !.name = n, !.v = Pick(10..99)]
                            [] k = 2 -> [Blank EXCEPT !.t = "guess", !.name = n, !.v = Pick(10..99)]
                            [] k = 3 -> [Blank EXCEPT !.t = "keep", !.name = n, !.lo = 50, !.hi = 60]
                            [] k = 4 -> [Blank EXCEPT !.t = "eq", !.name = n, !.eq = <<"lin", <<<<"n", 1>>>>, <<<<"n", -77>>>>, 77>>]
                            [] OTHER -> [Blank EXCEPT !.t = "junk", !.v = Pick(0..9)]])
                    /\ UNCHANGED <<cval, gval, dval, roots>>

\* an item with the name of a constant (1, 2) or unit (3..6) that does not exist, or
\* with units of different quantities; in a program of its own meaning it is an error
AddBad(k) == Add([Blank EXCEPT !.t = "bad", !.v = k]) /\ UNCHANGED <<cval, gval, dval, roots>>

Missing == ((Consts \cup Subs) \ DOMAIN cval) \cup {x \in Unknowns : x \notin DOMAIN roots}
           \cup {x \in Unknowns \cup Idle : (plan.guess[x] # None /\ x \notin DOMAIN gval) \/ (plan.dom[x] # None /\ x \notin DOMAIN dval)}
Init == items = <<>> /\ cval = <<>> /\ gval = <<>> /\ dval = <<>> /\ roots = <<>> /\ plan = None /\ bad = FALSE /\ fin = FALSE
Step == \E k \in {Pick(1..120)} :
          IF k = 120 THEN \E j \in {Pick(1..6)} : AddBad(j)
          ELSE IF k > 105 /\ Len(items) < MaxItems THEN \E n \in {Pick(Consts \cup Unknowns \cup Idle)}, j \in {Pick(1..6)} : AddComment(j, n)
          ELSE \E n \in {Pick(Missing)} :
               IF n \in Consts THEN AddConst(n)
               ELSE IF n \in Subs THEN AddSub(n)
               ELSE IF n \in Unknowns /\ n \notin DOMAIN roots /\ k <= 50 THEN AddEq(n)
               ELSE IF plan.guess[n] # None /\ n \notin DOMAIN gval THEN AddGuess(n)
               ELSE IF plan.dom[n] # None /\ n \notin DOMAIN dval THEN AddKeep(n)
               ELSE AddEq(n)
\* what a program leaves of the declarations it is compiled with (prior): its own
\* items take the place of the guess and of the domain, each on its own
Decl == [x \in {y \in Unknowns \cup Idle \cup Other : plan.prior[y] # None \/ y \in DOMAIN gval \/ y \in DOMAIN dval} |->
          [guess |-> IF x \in DOMAIN gval THEN <<gval[x]>> ELSE IF plan.prior[x] # None THEN <<plan.prior[x][1]>> ELSE None,
           dom   |-> IF x \in DOMAIN dval THEN dval[x] ELSE IF plan.prior[x] # None THEN Tail(plan.prior[x]) ELSE None]]
(* The program fails when a solution lies outside the domain kept               *)
Inside(x) == roots[x] = <<>> \/ x \notin DOMAIN dval \/ (dval[x][1] <= roots[x][1] /\ roots[x][1] <= dval[x][2])
Next == /\ ~fin
        /\ IF plan = None THEN MakePlan
           ELSE IF Missing # {} THEN Step
           ELSE /\ fin' = TRUE /\ UNCHANGED <<items, cval, gval, dval, roots, plan, bad>>
                /\ PrintT("@@" \o ToJson([items |-> items, consts |-> cval, guess |-> gval, dom |-> dval, roots |-> roots,
                       prior |-> plan.prior, known |-> plan.known, decl |-> Decl,
                       bad |-> bad, fails |-> bad \/ \E x \in DOMAIN roots : ~Inside(x)]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the meaning is the fold of the items, in whatever order they are taken
MConst(S) == {<<S[i].name, S[i].v>> : i \in {j \in DOMAIN S : S[j].t = "const"}}
MSub(S) == {<<S[i].name, S[i].inner>> : i \in {j \in DOMAIN S : S[j].t = "sub"}}
MGuess(S) == {<<S[i].name, S[i].v>> : i \in {j \in DOMAIN S : S[j].t = "guess"}}
MKeep(S) == {<<S[i].name, <<S[i].lo, S[i].hi>>>> : i \in {j \in DOMAIN S : S[j].t = "keep"}}
Untouched == plan # None => \A x \in Other : (x \in DOMAIN Decl <=> plan.prior[x] # None)
                                            /\ (x \in DOMAIN Decl => Decl[x].guess \o Decl[x].dom = plan.prior[x])
Meaning == /\ MConst(items) = {<<n, cval[n]>> : n \in DOMAIN cval \ Subs}
           /\ MSub(items) = {<<n, cval[n]>> : n \in DOMAIN cval \cap Subs}
           /\ MGuess(items) = {<<n, gval[n]>> : n \in DOMAIN gval}
           /\ MKeep(items) = {<<n, dval[n]>> : n \in DOMAIN dval}
Reverse(S) == [i \in 1..Len(S) |-> S[Len(S) + 1 - i]]
AnyOrder == /\ MConst(Reverse(items)) = MConst(items) /\ MSub(Reverse(items)) = MSub(items) /\ MGuess(Reverse(items)) = MGuess(items) /\ MKeep(Reverse(items)) = MKeep(items)
=============================================================================
