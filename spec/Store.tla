-------------------------------- MODULE Store --------------------------------
(* Variables shared between a context and the functions compiled from it      *)
(* (C03). Two contexts, "A" with the variables x, y, z and "B" with only x,   *)
(* each with the constant k; "C" has many variables. A function is compiled from a context; calling   *)
(* it assigns the named variables, clamped to their domains, and evaluates    *)
(* its expression at the resulting store of its context.                      *)
EXTENDS Rational, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps, MaxFuns, Ctxs
Values == {I(-9), I(0), <<5, 4>>}

Many    == <<"x", "y", "z", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11">>
VarsOf(c) == IF c = "A" THEN {"x", "y", "z"} ELSE IF c = "B" THEN {"x"} ELSE {Many[i] : i \in 1..Len(Many)}
KVal(c) == IF c = "A" THEN 3 ELSE -2
\* domains: <<lo, hi>>, or <<>> for the whole line
DomSets == << [A |-> [x |-> <<I(-4), I(5)>>, y |-> <<>>, z |-> <<I(1), I(1)>>],    B |-> [x |-> <<>>]],
              [A |-> [x |-> <<>>, y |-> <<I(0), I(7)>>, z |-> <<<<-1, 4>>, <<1, 2>>>>], B |-> [x |-> <<I(2), I(4)>>]],
              [A |-> [x |-> <<>>, y |-> <<>>, z |-> <<>>],                         B |-> [x |-> <<<<-1, 2>>, I(0)>>]] >>

DomC(k) == [v \in VarsOf("C") |-> LET i == CHOOSE i \in 1..Len(Many) : Many[i] = v
                                  IN CASE (i + k) % 3 = 0 -> <<I(-i), I(k)>> [] OTHER -> <<>>]
DomSet(k) == [c \in Ctxs |-> IF c = "C" THEN DomC(k) ELSE DomSets[k][c]]

VARIABLES dom, store, funs, hist, fin
vars == <<dom, store, funs, hist, fin>>

Clamp(d, v) == IF d = <<>> THEN v ELSE IF RLt(v, d[1]) THEN d[1] ELSE IF RLt(d[2], v) THEN d[2] ELSE v

-----------------------------------------------------------------------------
(* Expressions: <<"n", k>>, <<"v", name>>, <<op, a, b>>, <<"neg", a>>,        *)
(* <<"abs", a>>, <<"if", a, o, b, t, e>>                                      *)
RECURSIVE Ev(_, _, _), Names(_)
Ev(e, c, s) ==
    CASE e[1] = "n"   -> I(e[2])
      [] e[1] = "v"   -> IF e[2] = "k" THEN I(KVal(c)) ELSE s[e[2]]
      [] e[1] = "neg" -> RNeg(Ev(e[2], c, s))
      [] e[1] = "abs" -> RAbs(Ev(e[2], c, s))
      [] e[1] = "+"   -> RAdd(Ev(e[2], c, s), Ev(e[3], c, s))
      [] e[1] = "-"   -> RSub(Ev(e[2], c, s), Ev(e[3], c, s))
      [] e[1] = "*"   -> RMul(Ev(e[2], c, s), Ev(e[3], c, s))
      [] e[1] = "/"   -> RDiv(Ev(e[2], c, s), Ev(e[3], c, s))
      [] OTHER        -> LET a == Ev(e[2], c, s)  b == Ev(e[4], c, s)
                             t == Ev(e[5], c, s)  f == Ev(e[6], c, s)
                         IN IF ~Both(a, b) \/ ~Both(t, f)
                            THEN (IF Undef \in {a, b, t, f} THEN Undef ELSE Big)
                            ELSE IF (e[3] = 1 /\ REq(a, b)) \/ (e[3] = 4 /\ RLt(a, b)) \/ (e[3] = 2 /\ RLe(a, b)) THEN t ELSE f
Names(e) == CASE e[1] = "n" -> {} [] e[1] = "v" -> {e[2]} [] e[1] \in {"neg", "abs"} -> Names(e[2])
              [] e[1] = "if" -> Names(e[2]) \cup Names(e[4]) \cup Names(e[5]) \cup Names(e[6])
              [] OTHER -> Names(e[2]) \cup Names(e[3])

N(k) == <<"n", k>>
V(x) == <<"v", x>>
SmallTrees == { V("x"), <<"-", V("x"), <<"*", V("k"), V("y")>>>>, <<"/", V("y"), V("x")>> }

RECURSIVE RandTree(_, _)
RandTree(d, names) ==
    IF d = 0 \/ RandomElement(1..5) = 1
    THEN (IF RandomElement(1..25) = 1 THEN V("unknown") ELSE IF RandomElement(1..3) = 1 THEN N(RandomElement(0..5)) ELSE V(RandomElement(names)))
    ELSE LET k == RandomElement(1..8)
         IN CASE k = 1 -> <<"neg", RandTree(d - 1, names)>>
              [] k = 2 -> <<"abs", RandTree(d - 1, names)>>
              [] k = 3 -> <<"if", RandTree(d - 1, names), RandomElement({1, 2, 4}), RandTree(d - 1, names), RandTree(d - 1, names), RandTree(d - 1, names)>>
              [] OTHER -> <<RandomElement({"+", "-", "*", "/", "+", "*"}), RandTree(d - 1, names), RandTree(d - 1, names)>>

-----------------------------------------------------------------------------
Log(step, s2) == hist' = Append(hist, [step EXCEPT !.store = s2])
Blank == [op |-> "", ctx |-> "", fun |-> 0, tree |-> <<>>, args |-> <<>>, ok |-> TRUE, val |-> Undef, store |-> <<>>]

Compiles(c, e) == Names(e) \subseteq VarsOf(c) \cup {"k"}

\* compile expression e with context c; as a function of one number only if the
\* context has exactly one variable
CanCompile(c, e, one) == Compiles(c, e) /\ (one => Cardinality(VarsOf(c)) = 1)
Compile(c, e, one) ==
    /\ Len(funs) < MaxFuns
    /\ funs' = IF CanCompile(c, e, one) THEN Append(funs, [ctx |-> c, tree |-> e, one |-> one]) ELSE funs
    /\ Log([Blank EXCEPT !.op = IF one THEN "compile1" ELSE "compile", !.ctx = c, !.tree = e, !.ok = CanCompile(c, e, one)], store)
    /\ UNCHANGED <<dom, store>>

\* call function f with the map m from some of its variables to numbers
Call(f, m) ==
    LET c  == funs[f].ctx
        s2 == [x \in VarsOf(c) |-> IF x \in DOMAIN m THEN Clamp(dom[c][x], m[x]) ELSE store[c][x]]
        v  == Ev(funs[f].tree, c, s2)
    IN /\ v # Big
       /\ store' = [store EXCEPT ![c] = s2]
       /\ Log([Blank EXCEPT !.op = "call", !.fun = f, !.ctx = c, !.args = m, !.ok = IsDef(v), !.val = v], store')
       /\ UNCHANGED <<dom, funs>>

\* a call that names something that is no variable, whatever value it gives it
CallBad(f, name, v) ==
    /\ ~funs[f].one
    /\ Log([Blank EXCEPT !.op = "call", !.fun = f, !.ctx = funs[f].ctx, !.args = [x \in {name} |-> v], !.ok = FALSE], store)
    /\ UNCHANGED <<dom, funs, store>>

\* evaluate a text with the context
Eval(c, e) ==
    LET v == Ev(e, c, store[c])
    IN /\ Compiles(c, e) => v # Big
       /\ Log([Blank EXCEPT !.op = "eval", !.ctx = c, !.tree = e, !.ok = Compiles(c, e) /\ IsDef(v), !.val = IF Compiles(c, e) THEN v ELSE Undef], store)
       /\ UNCHANGED <<dom, funs, store>>

Maps(c) == UNION {[S -> Values] : S \in SUBSET VarsOf(c)}

Init == /\ dom \in {DomSet(i) : i \in 1..3}
        /\ store = [c \in Ctxs |-> [x \in VarsOf(c) |-> Clamp(dom[c][x], I(1))]]
        /\ funs = <<>> /\ fin = FALSE
        /\ hist = <<[Blank EXCEPT !.op = "init", !.store = store]>>

\* exhaustive: every edge of the graph of stores and compiled functions
Edge == PrintT("@@" \o ToJson([dom |-> dom, steps |-> hist']))
SmallMaps(f) == IF funs[f].one THEN [{"x"} -> Values] ELSE Maps(funs[f].ctx)
Next ==
    /\ Len(hist) <= MaxSteps /\ fin' = FALSE
    /\ \/ \E c \in Ctxs, e \in SmallTrees : Compile(c, e, FALSE) \/ Compile(c, e, TRUE)
       \/ \E f \in 1..Len(funs) : \/ \E m \in SmallMaps(f) : Call(f, m)
                                  \/ CallBad(f, "k", I(1)) \/ CallBad(f, "k", I(KVal(funs[f].ctx))) \/ CallBad(f, "unknown", I(1))
       \/ \E c \in Ctxs, e \in SmallTrees : Eval(c, e)
    /\ Edge
Spec == Init /\ [][Next]_vars
View == <<dom, store, funs, Len(hist)>>

\* random long histories
Pick(S) == RandomElement(S)
RandMap(f) == LET c == funs[f].ctx
                  S == IF funs[f].one THEN {"x"} ELSE IF c # "C" THEN Pick(SUBSET VarsOf(c))
                       ELSE CASE Pick(1..3) = 1 -> VarsOf(c)
                              [] OTHER -> {v \in VarsOf(c) : Pick(IF v = "" THEN {1} ELSE 1..3) > 1}
              IN [x \in S |-> IF Pick(1..3) = 1 THEN Rat(Pick(-10..10), Pick({2, 4})) ELSE I(Pick(-8..8))]
DeepNext ==
    /\ ~fin
    /\ IF Len(hist) > MaxSteps
       THEN fin' = TRUE /\ PrintT("@@" \o ToJson([dom |-> dom, steps |-> hist])) /\ UNCHANGED <<dom, store, funs, hist>>
       ELSE /\ fin' = FALSE
            \* (a random choice is bound once, by a quantifier over a singleton)
            /\ \E k \in {Pick(1..10)}, c \in {Pick({<<"A", 1>>, <<"A", 2>>} \cup {<<d, 3>> : d \in Ctxs})[1]}, one \in {Pick({TRUE, FALSE})} : \E e \in {RandTree(3, VarsOf(c) \cup {"k"})} :
                  IF funs = <<>> \/ (k <= 2 /\ Len(funs) < MaxFuns) THEN Compile(c, e, one /\ (c = "B" \/ k = 1))
                  ELSE IF k = 9 \/ k = 10 THEN Eval(c, e)
                  ELSE \E f \in {Pick(1..Len(funs))} :
                          IF k = 8 /\ ~funs[f].one THEN \E n \in {Pick({"k", "unknown", "sin"})}, own \in {Pick(BOOLEAN)} : CallBad(f, n, IF own THEN I(KVal(funs[f].ctx)) ELSE I(Pick(-2..3)))
                          ELSE \E m \in {RandMap(f)} : Call(f, m)
DeepSpec == Init /\ [][DeepNext]_vars

-----------------------------------------------------------------------------
InDomain == \A c \in Ctxs : \A x \in VarsOf(c) : Clamp(dom[c][x], store[c][x]) = store[c][x]
\* Only calls change a store, and only that of the function's own context
OnlyCalls == [][\A c \in Ctxs : store'[c] # store[c] => hist'[Len(hist')].op = "call" /\ hist'[Len(hist')].ctx = c]_vars
=============================================================================
