---------------------------- MODULE SolverHandles ----------------------------
(* The C interfaces of the equation solver and of the program solver (C17):     *)
(* contexts, builders, systems, declarations and solution texts that are live    *)
(* from the call that makes them until the call that frees or consumes them.     *)
(* Equations are linear with whole coefficients, so that the specification knows  *)
(* every solution exactly.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Slots, MaxOps, UseDom

VARIABLES truth, ctx, bld, sys, decl, txt, hist, fin
vars == <<truth, ctx, bld, sys, decl, txt, hist, fin>>

Pick(S) == RandomElement(S)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumOver(f, S \ {e})
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o Listed(S \ {e})

\* a partial map from names: <<>> where undefined
Undef == [n \in Names |-> <<>>]
Known(d) == {n \in Names : d[n] # <<>>}
NoMat == <<>>

(* Equations: the sum of c[n] * n equals rhs; ok is FALSE for a malformed text *)
Uses(e) == {n \in Names : e.c[n] # 0}
Unknowns(e, d) == Uses(e) \ Known(d)
Rest(e, d) == e.rhs - SumOver([n \in Names |-> IF d[n] = <<>> THEN 0 ELSE e.c[n] * d[n][1]], Names)

RECURSIVE Det(_, _)
Det(M, k) == IF k = 0 THEN 1
             ELSE IF k = 1 THEN M[1][1]
             ELSE LET Minor(j) == [i \in 1..(k - 1) |-> [q \in 1..(k - 1) |-> M[i + 1][IF q < j THEN q ELSE q + 1]]]
                      f == [j \in 1..k |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(j), k - 1)]
                  IN SumOver(f, 1..k)
\* Cramer's rule for the equations E with the unknowns v: [den, num]
Cramer(E, v, d) ==
    LET u == Listed(v)
        k == Len(u)
        M == [i \in 1..k |-> [j \in 1..k |-> E[i].c[u[j]]]]
        R == [i \in 1..k |-> Rest(E[i], d)]
        Col(j) == [i \in 1..k |-> [M[i] EXCEPT ![j] = R[i]]]
    IN [den |-> Det(M, k), num |-> [n \in v |-> LET j == CHOOSE j \in 1..k : u[j] = n IN Det(Col(j), k)]]
\* num/den lies in the domain; Edge when it is just on its border
In(num, den, dom) == dom = <<>> \/ (IF den > 0 THEN dom[2] * den < num /\ num < dom[3] * den ELSE dom[2] * den > num /\ num > dom[3] * den)
Edge(num, den, dom) == dom # <<>> /\ (num = dom[2] * den \/ num = dom[3] * den)

-----------------------------------------------------------------------------
(* random arguments *)
Value(z, n) == IF Pick(1..5) > 1 THEN truth[n] ELSE Pick(-7..9)
RandEq(z, U) ==
    LET c == [n \in Names |-> IF n \in U THEN Pick({-3, -2, -1, 1, 1, 2, 4}) ELSE 0]
    IN [c |-> c, rhs |-> SumOver([n \in Names |-> c[n] * truth[n]], Names), ok |-> Pick(1..9) # 1]
\* a set of names with at most k outside d
Choose(z, d, k) == {n \in Known(d) : Pick(1..2) = 1} \cup {IF Names \ Known(d) = {} THEN Pick(Names) ELSE Pick(Names \ Known(d)) : i \in 1..k}
RandDom(z, n) == CASE ~UseDom -> <<>>
                   [] Pick(1..6) = 1 -> <<truth[n] + 2, truth[n] + 1, truth[n] + 6>>
                   [] Pick(1..3) < 3 -> <<truth[n] - Pick(1..2), truth[n] - 3, truth[n] + 4>>
                   [] OTHER -> <<>>
Margin(z) == IF Pick(1..8) = 1 THEN 0 ELSE 1     \* 0: a margin that nothing meets

R0 == [op |-> "", o |-> 0, to |-> 0, t |-> 0, name |-> "", val |-> 0, eqs |-> <<>>, dom |-> <<>>, decls |-> <<>>, margin |-> 1,
       base |-> "", code |-> {}, null |-> FALSE, soln |-> <<>>, known |-> <<>>]
Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<truth, fin>>
Dead(k) == {s \in Slots : ~k[s].live}
Live(k) == {s \in Slots : k[s].live}
NoCtx == [live |-> FALSE, base |-> "", def |-> Undef, spoilt |-> FALSE]
NoBld == [live |-> FALSE, base |-> "", def |-> Undef, unk |-> {}, eqs |-> <<>>]
NoSys == [live |-> FALSE, base |-> "", def |-> Undef, unk |-> {}, eqs |-> <<>>, dom |-> Undef]
NoDecl == [live |-> FALSE, dom |-> Undef]

\* some behaviours have empty contexts only: there, built-in names are names like any other
EmptyOnly == truth[CHOOSE n \in Names : TRUE] > 2
NewCtx == \E s \in {Pick(Dead(ctx))}, b \in {IF EmptyOnly THEN "empty" ELSE Pick({"empty", "default"})} :
             /\ ctx' = [ctx EXCEPT ![s] = [NoCtx EXCEPT !.live = TRUE, !.base = b]]
             /\ UNCHANGED <<bld, sys, decl, txt>> /\ Log([R0 EXCEPT !.op = "new_ctx", !.to = s, !.base = b])
AddConst == \E s \in {Pick(Live(ctx))}, n \in {Pick(Names)} : \E v \in {Value(1, n)} :
             IF Cardinality(Known(ctx[s].def)) >= 2 /\ Pick(1..4) > 1 THEN UNCHANGED vars ELSE
             /\ ctx' = [ctx EXCEPT ![s].def[n] = <<v>>]
             /\ UNCHANGED <<bld, sys, decl, txt>> /\ Log([R0 EXCEPT !.op = "add_const", !.o = s, !.name = n, !.val = v])
Usable == {s \in Live(ctx) : ~ctx[s].spoilt}
SolveEq == \E s \in {Pick(Usable)}, k \in {Pick({0, 1, 1, 1, 2})} : \E U \in {Choose(1, ctx[s].def, k)}, t \in {Pick(Slots \ txt)} : \E e \in {RandEq(1, U)}, m \in {Margin(1)} :
             LET d == ctx[s].def
                 v == Unknowns(e, d)
                 x == CHOOSE x \in v : TRUE
                 num == Rest(e, d)  den == e.c[x]
             IN IF U = {} \/ (m = 0 /\ ~e.ok) THEN UNCHANGED vars
                ELSE \E dom \in {IF v = {} THEN <<>> ELSE RandDom(1, x)} :
                LET good == e.ok /\ m = 1 /\ Cardinality(v) = 1 /\ In(num, den, dom)
                IN IF Cardinality(v) = 1 /\ Edge(num, den, dom) THEN UNCHANGED vars
                   ELSE /\ txt' = IF good THEN txt \cup {t} ELSE txt
                        /\ UNCHANGED <<ctx, bld, sys, decl>>
                        /\ Log([R0 EXCEPT !.op = "solve_equation", !.o = s, !.t = t, !.eqs = <<e>>, !.dom = dom, !.margin = m, !.null = ~good, !.base = ctx[s].base,
                                    !.soln = IF good THEN <<[n |-> x, num |-> num, den |-> den]>> ELSE <<>>])
NewBld == \E s \in {Pick(Usable)}, b \in {Pick(Dead(bld))}, k \in {Pick({1, 2, 2, 3, 3})} : \E e \in {RandEq(1, Choose(1, ctx[s].def, k))} :
             LET v == Unknowns(e, ctx[s].def) IN
             IF v = {} THEN UNCHANGED vars
             ELSE /\ bld' = IF e.ok THEN [bld EXCEPT ![b] = [live |-> TRUE, base |-> ctx[s].base, def |-> ctx[s].def, unk |-> v, eqs |-> <<e>>]] ELSE bld
                  /\ UNCHANGED <<ctx, sys, decl, txt>>
                  /\ Log([R0 EXCEPT !.op = "new_builder", !.o = s, !.to = b, !.eqs = <<e>>, !.null = ~e.ok, !.base = ctx[s].base])
Full(B) == Cardinality(B.unk) = Len(B.eqs)
Constrain == \E b \in {LET F == {x \in Live(bld) : ~Full(bld[x])} IN IF F # {} /\ Pick(1..5) > 1 THEN Pick(F) ELSE Pick(Live(bld))}, near \in {Pick(1..3)} :
             LET B == bld[b]
                 U == IF near > 1 THEN B.unk \cup {n \in Known(B.def) : Pick(1..3) = 1} ELSE Choose(1, B.def, Pick(1..3)) IN
             \E e \in {RandEq(1, U)} :
             LET new == Unknowns(e, B.def) \ B.unk
                 will == ~Full(B) /\ Cardinality(new) <= 1 /\ e.ok
             IN IF Unknowns(e, B.def) = {} THEN UNCHANGED vars
                ELSE /\ bld' = IF will THEN [bld EXCEPT ![b].unk = @ \cup new, ![b].eqs = Append(@, e)] ELSE bld
                     /\ UNCHANGED <<ctx, sys, decl, txt>>
                     /\ Log([R0 EXCEPT !.op = "constrain", !.o = b, !.eqs = <<e>>, !.base = B.base,
                               !.code = IF Full(B) THEN {2} ELSE IF will THEN {1} ELSE IF e.ok THEN {0} ELSE IF Cardinality(new) > 1 THEN {0, -1} ELSE {-1}])
IsFull == \E b \in {Pick(Live(bld))} : UNCHANGED <<ctx, bld, sys, decl, txt>> /\ Log([R0 EXCEPT !.op = "is_full", !.o = b, !.code = {IF Full(bld[b]) THEN 1 ELSE 0}])
\* building uses the builder up, whatever comes of it
BuildSys == \E b \in {IF (\E x \in Live(bld) : Full(bld[x])) /\ Pick(1..8) > 1 THEN Pick({x \in Live(bld) : Full(bld[x])}) ELSE Pick(Live(bld))}, s \in {Pick(Dead(sys))} :
             LET B == bld[b] IN
             /\ bld' = [bld EXCEPT ![b] = NoBld]
             /\ sys' = IF Full(B) THEN [sys EXCEPT ![s] = [live |-> TRUE, base |-> B.base, def |-> B.def, unk |-> B.unk, eqs |-> B.eqs, dom |-> Undef]] ELSE sys
             /\ UNCHANGED <<ctx, decl, txt>> /\ Log([R0 EXCEPT !.op = "build", !.o = b, !.to = s, !.null = ~Full(B)])
Specify == \E s \in {Pick(Live(sys))} : \E n \in {IF Pick(1..4) > 1 THEN Pick(sys[s].unk) ELSE Pick(Names)} : \E dom \in {RandDom(1, n)} :
             IF dom = <<>> THEN UNCHANGED vars
             ELSE /\ sys' = IF n \in sys[s].unk THEN [sys EXCEPT ![s].dom[n] = dom] ELSE sys
                  /\ UNCHANGED <<ctx, bld, decl, txt>>
                  /\ Log([R0 EXCEPT !.op = "specify", !.o = s, !.name = n, !.dom = dom, !.code = {IF n \in sys[s].unk THEN 1 ELSE -1}])
SolveSys == \E s \in {Pick(Live(sys))}, t \in {Pick(Slots \ txt)}, m \in {Margin(1)} :
             LET S == sys[s]
                 r == Cramer(S.eqs, S.unk, S.def)
                 inside == \A n \in S.unk : In(r.num[n], r.den, S.dom[n])
                 u == Listed(S.unk)
                 good == m = 1 /\ inside
             IN IF r.den = 0 \/ (\E n \in S.unk : Edge(r.num[n], r.den, S.dom[n])) THEN UNCHANGED vars
                ELSE /\ sys' = [sys EXCEPT ![s] = NoSys] /\ txt' = IF good THEN txt \cup {t} ELSE txt
                     /\ UNCHANGED <<ctx, bld, decl>>
                     /\ Log([R0 EXCEPT !.op = "solve_system", !.o = s, !.t = t, !.margin = m, !.null = ~good,
                               !.soln = IF good THEN [i \in 1..Len(u) |-> [n |-> u[i], num |-> r.num[u[i]], den |-> r.den]] ELSE <<>>])

(* Programs: equations with one unknown first, then pairs with the same two unknowns, *)
(* then three equations with three                                                    *)
Singles(L, d) == {i \in DOMAIN L : Cardinality(Unknowns(L[i], d)) = 1}
RECURSIVE Determine(_, _, _, _)
\* [ok, def: with the values found, left: equations not used, out: somewhere a value outside its domain or not whole]
Determine(L, left, d, D) ==
    LET one == {i \in left : Cardinality(Unknowns(L[i], d)) = 1}
        two == {p \in left \X left : p[1] < p[2] /\ Cardinality(Unknowns(L[p[1]], d)) = 2 /\ Unknowns(L[p[1]], d) = Unknowns(L[p[2]], d)}
    IN IF one # {} THEN
          LET i == CHOOSE i \in one : TRUE
              x == CHOOSE x \in Unknowns(L[i], d) : TRUE
              num == Rest(L[i], d)  den == L[i].c[x]
          IN IF num % Abs(den) # 0 \/ Edge(num, den, D[x]) THEN [ok |-> FALSE, out |-> FALSE, def |-> d, left |-> left]
             ELSE IF ~In(num, den, D[x]) THEN [ok |-> TRUE, out |-> TRUE, def |-> d, left |-> {}]
             ELSE Determine(L, left \ {i}, [d EXCEPT ![x] = <<IF den > 0 THEN num \div den ELSE (-num) \div (-den)>>], D)
       ELSE IF two # {} THEN
          LET p == CHOOSE p \in two : TRUE
              v == Unknowns(L[p[1]], d)
              r == Cramer(<<L[p[1]], L[p[2]]>>, v, d)
          IN IF r.den = 0 \/ (\E n \in v : r.num[n] % Abs(r.den) # 0 \/ Edge(r.num[n], r.den, D[n])) THEN [ok |-> FALSE, out |-> FALSE, def |-> d, left |-> left]
             ELSE IF \E n \in v : ~In(r.num[n], r.den, D[n]) THEN [ok |-> TRUE, out |-> TRUE, def |-> d, left |-> {}]
             ELSE Determine(L, left \ {p[1], p[2]}, [n \in Names |-> IF n \in v THEN <<IF r.den > 0 THEN r.num[n] \div r.den ELSE (-r.num[n]) \div (-r.den)>> ELSE d[n]], D)
       ELSE IF Cardinality(left) = 3 /\ Cardinality(UNION {Unknowns(L[i], d) : i \in left}) = 3 THEN
          LET q == Listed(left)
              v == UNION {Unknowns(L[i], d) : i \in left}
              r == Cramer(<<L[q[1]], L[q[2]], L[q[3]]>>, v, d)
          IN IF r.den = 0 \/ (\E n \in v : r.num[n] % Abs(r.den) # 0 \/ Edge(r.num[n], r.den, D[n])) THEN [ok |-> FALSE, out |-> FALSE, def |-> d, left |-> left]
             ELSE IF \E n \in v : ~In(r.num[n], r.den, D[n]) THEN [ok |-> TRUE, out |-> TRUE, def |-> d, left |-> {}]
             ELSE [ok |-> TRUE, out |-> FALSE, left |-> {}, def |-> [n \in Names |-> IF n \in v THEN <<IF r.den > 0 THEN r.num[n] \div r.den ELSE (-r.num[n]) \div (-r.den)>> ELSE d[n]]]
       ELSE [ok |-> TRUE, out |-> FALSE, def |-> d, left |-> left]
\* no equation loses all its unknowns without being used (it could not be checked then)
Plain(L, d, D) == LET r == Determine(L, DOMAIN L, d, Undef) IN Determine(L, DOMAIN L, d, D).ok /\ r.ok /\ \A i \in r.left : Unknowns(L[i], r.def) # {}
Program(z, d) == [i \in 1..Pick({1, 2, 2, 3}) |-> [RandEq(i, Choose(i, d, Pick(1..2))) EXCEPT !.ok = Pick(1..12) # 1]]
\* calls that solve a program: into the caller's context, or with one of its own
SolveProg == \E s \in {Pick(Usable)}, q \in {Pick(Live(decl))}, t \in {Pick(Slots \ txt)}, m \in {Margin(1)} : \E L \in {Program(1, ctx[s].def)} :
             LET malformed == \E i \in DOMAIN L : ~L[i].ok
                 d == ctx[s].def
                 r == Determine(L, DOMAIN L, d, decl[q].dom)
                 \* a malformed equation that is looked at makes the program fail; one with a single unknown is
                 bad == \E i \in Singles(L, d) : ~L[i].ok
                 solves == r.def # d
                 good == ~malformed /\ ~r.out /\ (m = 1 \/ ~solves)
             IN IF (malformed /\ ~bad) \/ (\E i \in DOMAIN L : Unknowns(L[i], d) = {}) \/ (~malformed /\ ~Plain(L, d, decl[q].dom)) THEN UNCHANGED vars
                ELSE /\ ctx' = IF good THEN [ctx EXCEPT ![s].def = r.def] ELSE [ctx EXCEPT ![s].spoilt = TRUE]
                     /\ txt' = IF good THEN txt \cup {t} ELSE txt
                     /\ UNCHANGED <<bld, sys, decl>>
                     /\ Log([R0 EXCEPT !.op = "basic_solve", !.o = s, !.to = q, !.t = t, !.eqs = L, !.margin = m, !.null = ~good, !.base = ctx[s].base,
                               !.soln = IF good THEN LET u == Listed(Known(r.def)) IN [i \in 1..Len(u) |-> [n |-> u[i], num |-> r.def[u[i]][1], den |-> 1]] ELSE <<>>])
SolveText == \E t \in {Pick(Slots \ txt)}, m \in {Margin(1)} : \E L \in {Program(1, Undef)}, D \in {[n \in Names |-> IF Pick(1..2) = 1 THEN <<>> ELSE RandDom(1, n)]} :
             LET malformed == \E i \in DOMAIN L : ~L[i].ok
                 r == Determine(L, DOMAIN L, Undef, D)
                 bad == \E i \in Singles(L, Undef) : ~L[i].ok
                 solves == r.def # Undef
                 good == ~malformed /\ ~r.out /\ (m = 1 \/ ~solves)
             IN IF (malformed /\ ~bad) \/ (\E i \in DOMAIN L : Uses(L[i]) = {}) \/ (~malformed /\ ~Plain(L, Undef, D)) THEN UNCHANGED vars
                ELSE /\ txt' = IF good THEN txt \cup {t} ELSE txt
                     /\ UNCHANGED <<ctx, bld, sys, decl>>
                     /\ Log([R0 EXCEPT !.op = "solve_text", !.t = t, !.eqs = L, !.decls = [i \in 1..Len(Listed(Names)) |-> <<Listed(Names)[i], D[Listed(Names)[i]]>>], !.margin = m, !.null = ~good, !.base = "default",
                               !.soln = IF good THEN LET u == Listed(Known(r.def)) IN [i \in 1..Len(u) |-> [n |-> u[i], num |-> r.def[u[i]][1], den |-> 1]] ELSE <<>>])
NewDecl == \E s \in {Pick(Dead(decl))} : decl' = [decl EXCEPT ![s] = [NoDecl EXCEPT !.live = TRUE]] /\ UNCHANGED <<ctx, bld, sys, txt>> /\ Log([R0 EXCEPT !.op = "new_decl", !.to = s])
AddDecl == \E s \in {Pick(Live(decl))}, n \in {Pick(Names)} : \E dom \in {RandDom(1, n)} :
             IF dom = <<>> THEN UNCHANGED vars
             ELSE /\ decl' = [decl EXCEPT ![s].dom[n] = dom] /\ UNCHANGED <<ctx, bld, sys, txt>>
                  /\ Log([R0 EXCEPT !.op = "add_decl", !.o = s, !.name = n, !.dom = dom, !.code = {1}])
Free(k) == CASE k = "ctx" /\ Live(ctx) # {} -> \E s \in {Pick(Live(ctx))} : ctx' = [ctx EXCEPT ![s] = NoCtx] /\ UNCHANGED <<bld, sys, decl, txt>> /\ Log([R0 EXCEPT !.op = "free_ctx", !.o = s])
             [] k = "bld" /\ Live(bld) # {} -> \E s \in {Pick(Live(bld))} : bld' = [bld EXCEPT ![s] = NoBld] /\ UNCHANGED <<ctx, sys, decl, txt>> /\ Log([R0 EXCEPT !.op = "free_builder", !.o = s])
             [] k = "sys" /\ Live(sys) # {} -> \E s \in {Pick(Live(sys))} : sys' = [sys EXCEPT ![s] = NoSys] /\ UNCHANGED <<ctx, bld, decl, txt>> /\ Log([R0 EXCEPT !.op = "free_system", !.o = s])
             [] k = "decl" /\ Live(decl) # {} -> \E s \in {Pick(Live(decl))} : decl' = [decl EXCEPT ![s] = NoDecl] /\ UNCHANGED <<ctx, bld, sys, txt>> /\ Log([R0 EXCEPT !.op = "free_decl", !.o = s])
             [] k = "txt" /\ txt # {} -> \E s \in {Pick(txt)} : txt' = txt \ {s} /\ UNCHANGED <<ctx, bld, sys, decl>> /\ Log([R0 EXCEPT !.op = "free_text", !.t = s])
             [] OTHER -> UNCHANGED vars
Kinds == {"ctx", "bld", "sys", "decl", "txt"}

Act == \E k \in {Pick(1..34)} :
   CASE k <= 2 /\ Dead(ctx) # {} -> NewCtx
     [] k \in 3..5 /\ Live(ctx) # {} -> AddConst
     [] k \in 6..8 /\ Usable # {} /\ txt # Slots -> SolveEq
     [] k \in 9..11 /\ Usable # {} /\ Dead(bld) # {} -> NewBld
     [] k \in 12..16 /\ Live(bld) # {} /\ (k < 14 \/ \E x \in Live(bld) : ~Full(bld[x])) -> Constrain
     [] k = 17 /\ Live(bld) # {} -> IsFull
     [] k \in 18..20 /\ Live(bld) # {} /\ Dead(sys) # {} -> BuildSys
     [] k \in 21..22 /\ Live(sys) # {} -> Specify
     [] k \in 23..24 /\ Live(sys) # {} /\ txt # Slots -> SolveSys
     [] k \in 25..26 /\ Usable # {} /\ Live(decl) # {} /\ txt # Slots -> SolveProg
     [] k = 27 /\ txt # Slots /\ ~EmptyOnly -> SolveText
     [] k = 28 /\ Dead(decl) # {} -> NewDecl
     [] k \in 29..30 /\ Live(decl) # {} -> AddDecl
     [] k = 31 \/ (k = 32 /\ txt = Slots) -> Free("txt")
     [] k = 33 -> \E q \in {Pick(Kinds)} : Free(q)
     [] Live(ctx) = {} -> NewCtx
     [] OTHER -> UNCHANGED vars
Init == /\ truth = [n \in Names |-> 0] /\ ctx = [s \in Slots |-> NoCtx] /\ bld = [s \in Slots |-> NoBld] /\ sys = [s \in Slots |-> NoSys]
        /\ decl = [s \in Slots |-> NoDecl] /\ txt = {} /\ hist = <<>> /\ fin = FALSE
Begin == \E t \in {[n \in Names |-> Pick(-6..6)]} : truth' = t /\ hist' = <<[R0 EXCEPT !.op = "begin"]>> /\ UNCHANGED <<ctx, bld, sys, decl, txt, fin>>
\* at the end everything still live is freed
Finish == CASE Live(ctx) # {} -> Free("ctx") [] Live(bld) # {} -> Free("bld") [] Live(sys) # {} -> Free("sys") [] Live(decl) # {} -> Free("decl") [] txt # {} -> Free("txt")
            [] OTHER -> fin' = TRUE /\ UNCHANGED <<truth, ctx, bld, sys, decl, txt, hist>> /\ PrintT("@@" \o ToJson(Tail(hist)))
Next == ~fin /\ (IF hist = <<>> THEN Begin ELSE IF Len(hist) <= MaxOps THEN Act ELSE Finish)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a builder never has more equations than unknowns, a system just as many
Counted == /\ \A s \in Live(bld) : Len(bld[s].eqs) <= Cardinality(bld[s].unk)
           /\ \A s \in Live(sys) : Full(sys[s])
\* a solution satisfies the equations it was found for
Satisfied == hist = <<>> \/ LET h == hist[Len(hist)] IN
    (h.op = "basic_solve" /\ ~h.null) =>
        LET d == ctx[h.o].def IN \A i \in DOMAIN h.eqs : Unknowns(h.eqs[i], d) = {} => Rest(h.eqs[i], d) = 0
=============================================================================
