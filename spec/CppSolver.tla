------------------------------ MODULE CppSolver ------------------------------
(* The C++ classes for contexts, builders and systems (C25) over the calls of     *)
(* SolverHandles: objects that own what they stand for. One that is moved from,    *)
(* or that is used up by building or solving, holds nothing any more; using it     *)
(* then is reported, and letting go of it does nothing.                            *)
EXTENDS SolverHandles

VARIABLES spentB, spentS      \* builders and systems that are objects still, but used up
cvars == <<truth, ctx, bld, sys, decl, txt, hist, fin, spentB, spentS>>

FreeB == Dead(bld) \ spentB
FreeS == Dead(sys) \ spentS
Same == UNCHANGED <<spentB, spentS>>
Stay == UNCHANGED <<ctx, bld, sys, decl, txt>>

CBuild == \E b \in {IF (\E x \in Live(bld) : Full(bld[x])) /\ Pick(1..8) > 1 THEN Pick({x \in Live(bld) : Full(bld[x])}) ELSE Pick(Live(bld))}, s \in {Pick(FreeS)} :
             LET B == bld[b] IN
             /\ bld' = [bld EXCEPT ![b] = NoBld] /\ spentB' = spentB \cup {b}
             /\ sys' = IF Full(B) THEN [sys EXCEPT ![s] = [live |-> TRUE, base |-> B.base, def |-> B.def, unk |-> B.unk, eqs |-> B.eqs, dom |-> Undef]] ELSE sys
             /\ UNCHANGED <<ctx, decl, txt, spentS>> /\ Log([R0 EXCEPT !.op = "build", !.o = b, !.to = s, !.null = ~Full(B)])
CSolve == \E s \in {Pick(Live(sys))}, m \in {Margin(1)} :
             LET S == sys[s]
                 r == Cramer(S.eqs, S.unk, S.def)
                 u == Listed(S.unk)
                 good == m = 1 /\ \A n \in S.unk : In(r.num[n], r.den, S.dom[n])
             IN IF r.den = 0 \/ (\E n \in S.unk : Edge(r.num[n], r.den, S.dom[n])) THEN UNCHANGED cvars
                ELSE /\ sys' = [sys EXCEPT ![s] = NoSys] /\ spentS' = spentS \cup {s}
                     /\ UNCHANGED <<ctx, bld, decl, txt, spentB>>
                     /\ Log([R0 EXCEPT !.op = "solve_system", !.o = s, !.margin = m, !.null = ~good,
                               !.soln = IF good THEN [i \in 1..Len(u) |-> [n |-> u[i], num |-> r.num[u[i]], den |-> r.den]] ELSE <<>>])
\* using what is used up: reported
Late == CASE spentB # {} /\ (Pick(1..2) = 1 \/ spentS = {}) -> \E b \in {Pick(spentB)}, op \in {Pick({"late constrain", "late is_full", "late build", "late debug"})} :
                Stay /\ Same /\ Log([R0 EXCEPT !.op = op, !.o = b, !.null = op \in {"late constrain", "late build"}, !.code = IF op = "late is_full" THEN {-1} ELSE {}])
          [] spentS # {} -> \E s \in {Pick(spentS)}, op \in {Pick({"late specify", "late solve"})} :
                Stay /\ Same /\ Log([R0 EXCEPT !.op = op, !.o = s, !.null = op = "late solve", !.code = IF op = "late specify" THEN {-1} ELSE {}])
          [] OTHER -> UNCHANGED cvars
\* the contents of one object go to another, new or existing, and the first goes away
Move == \E k \in {Pick({"ctx", "bld", "sys"})}, to \in {Pick(Slots)} :
        CASE k = "ctx" /\ Live(ctx) \ {to} # {} -> \E o \in {Pick(Live(ctx) \ {to})} :
                /\ ctx' = [ctx EXCEPT ![to] = ctx[o], ![o] = NoCtx] /\ UNCHANGED <<bld, sys, decl, txt>> /\ Same
                /\ Log([R0 EXCEPT !.op = "move_ctx", !.o = o, !.to = to])
          [] k = "bld" /\ Live(bld) \ {to} # {} -> \E o \in {Pick(Live(bld) \ {to})} :
                /\ bld' = [bld EXCEPT ![to] = bld[o], ![o] = NoBld] /\ spentB' = spentB \ {to} /\ UNCHANGED <<ctx, sys, decl, txt, spentS>>
                /\ Log([R0 EXCEPT !.op = "move_builder", !.o = o, !.to = to])
          [] k = "sys" /\ Live(sys) \ {to} # {} -> \E o \in {Pick(Live(sys) \ {to})} :
                /\ sys' = [sys EXCEPT ![to] = sys[o], ![o] = NoSys] /\ spentS' = spentS \ {to} /\ UNCHANGED <<ctx, bld, decl, txt, spentB>>
                /\ Log([R0 EXCEPT !.op = "move_system", !.o = o, !.to = to])
          [] OTHER -> UNCHANGED cvars
DropSpent == CASE spentB # {} -> \E b \in {Pick(spentB)} : spentB' = spentB \ {b} /\ UNCHANGED spentS /\ Stay /\ Log([R0 EXCEPT !.op = "free_builder", !.o = b])
               [] spentS # {} -> \E s \in {Pick(spentS)} : spentS' = spentS \ {s} /\ UNCHANGED spentB /\ Stay /\ Log([R0 EXCEPT !.op = "free_system", !.o = s])
               [] OTHER -> UNCHANGED cvars
CAct == \E k \in {Pick(1..30)} :
   CASE k <= 2 /\ Dead(ctx) # {} -> NewCtx /\ Same
     [] k \in 3..4 /\ Live(ctx) # {} -> AddConst /\ Same
     [] k \in 5..8 /\ Usable # {} /\ FreeB # {} -> \E b \in {Pick(FreeB)}, s \in {Pick(Usable)} : \E e \in {RandEq(1, Choose(1, ctx[s].def, Pick({1, 2, 2, 3, 3})))} :
             LET v == Unknowns(e, ctx[s].def) IN
             IF v = {} THEN UNCHANGED cvars
             ELSE /\ bld' = IF e.ok THEN [bld EXCEPT ![b] = [live |-> TRUE, base |-> ctx[s].base, def |-> ctx[s].def, unk |-> v, eqs |-> <<e>>]] ELSE bld
                  /\ UNCHANGED <<ctx, sys, decl, txt>> /\ Same
                  /\ Log([R0 EXCEPT !.op = "new_builder", !.o = s, !.to = b, !.eqs = <<e>>, !.null = ~e.ok, !.base = ctx[s].base])
     [] k \in 9..14 /\ Live(bld) # {} /\ (k < 11 \/ \E x \in Live(bld) : ~Full(bld[x])) -> Constrain /\ Same
     [] k = 15 /\ Live(bld) # {} -> IsFull /\ Same
     [] k \in 16..18 /\ Live(bld) # {} /\ FreeS # {} -> CBuild
     [] k \in 19..20 /\ Live(sys) # {} -> Specify /\ Same
     [] k \in 21..23 /\ Live(sys) # {} -> CSolve
     [] k \in 24..25 -> Late
     [] k \in 26..27 -> Move
     [] k = 28 -> DropSpent
     [] k = 29 -> \E q \in {Pick({"ctx", "bld", "sys"})} : Free(q) /\ Same
     [] Live(ctx) = {} -> NewCtx /\ Same
     [] OTHER -> UNCHANGED cvars
CFinish == CASE spentB \cup spentS # {} -> DropSpent [] Live(ctx) # {} -> Free("ctx") /\ Same [] Live(bld) # {} -> Free("bld") /\ Same [] Live(sys) # {} -> Free("sys") /\ Same
             [] OTHER -> fin' = TRUE /\ UNCHANGED <<truth, ctx, bld, sys, decl, txt, hist, spentB, spentS>> /\ PrintT("@@" \o ToJson(Tail(hist)))
CInit == Init /\ spentB = {} /\ spentS = {}
CNext == ~fin /\ (IF hist = <<>> THEN Begin /\ Same ELSE IF Len(hist) <= MaxOps THEN CAct ELSE CFinish)
CSpec == CInit /\ [][CNext]_cvars

\* what is used up holds nothing
Gone == spentB \cap Live(bld) = {} /\ spentS \cap Live(sys) = {}
=============================================================================
