------------------------------- MODULE Grammar -------------------------------
(* The expression language: grammar and meaning (C01, C02)                    *)
EXTENDS Rational, Sequences

\* Token classes. n: a number, k: a named constant, v: a variable, f1 f2 f3 f5:
\* functions by arity, u: a word that is neither a number nor a known name
Operands  == {"n", "k", "v"}
Arity     == [f1 |-> 1, f2 |-> 2, f3 |-> 3, f5 |-> 5]
Functions == DOMAIN Arity
BinOps    == {"+", "-", "*", "/", "^"}

-----------------------------------------------------------------------------
(* The grammar                                                                *)
(*   expr   := term   (("+" | "-") term)*                                     *)
(*   term   := factor (("*" | "/") factor)*                                   *)
(*   factor := "-" factor | power                                             *)
(*   power  := atom ("^" factor)?                                             *)
(*   atom   := operand | "(" expr ")" | function "(" expr ("," expr)* ")"     *)
(* A parser for a phrase maps a position to <<end position, postfix>>, with   *)
(* end position 0 when there is no phrase there. Postfix items are <<op, p>>  *)
(* with p the position of the token they come from.                           *)

Fail == <<0, <<>>>>
At(t, p) == IF p <= Len(t) THEN t[p] ELSE "$"

RECURSIVE PExpr(_, _), PExprTail(_, _), PTerm(_, _), PTermTail(_, _),
          PFactor(_, _), PPower(_, _), PAtom(_, _), PArgs(_, _, _)

PExpr(t, p)  == LET a == PTerm(t, p) IN IF a[1] = 0 THEN Fail ELSE PExprTail(t, a)
PExprTail(t, a) ==
    IF At(t, a[1]) \in {"+", "-"}
    THEN LET b == PTerm(t, a[1] + 1)
         IN IF b[1] = 0 THEN Fail
            ELSE PExprTail(t, <<b[1], a[2] \o b[2] \o <<<<t[a[1]], a[1]>>>>>>)
    ELSE a
PTerm(t, p)  == LET a == PFactor(t, p) IN IF a[1] = 0 THEN Fail ELSE PTermTail(t, a)
PTermTail(t, a) ==
    IF At(t, a[1]) \in {"*", "/"}
    THEN LET b == PFactor(t, a[1] + 1)
         IN IF b[1] = 0 THEN Fail
            ELSE PTermTail(t, <<b[1], a[2] \o b[2] \o <<<<t[a[1]], a[1]>>>>>>)
    ELSE a
PFactor(t, p) ==
    IF At(t, p) = "-"
    THEN LET a == PFactor(t, p + 1)
         IN IF a[1] = 0 THEN Fail ELSE <<a[1], a[2] \o <<<<"neg", p>>>>>>
    ELSE PPower(t, p)
PPower(t, p) ==
    LET a == PAtom(t, p)
    IN IF a[1] = 0 THEN Fail
       ELSE IF At(t, a[1]) = "^"
            THEN LET b == PFactor(t, a[1] + 1)
                 IN IF b[1] = 0 THEN Fail ELSE <<b[1], a[2] \o b[2] \o <<<<"^", a[1]>>>>>>
            ELSE a
\* k arguments from p on, up to and including the closing parenthesis
PArgs(t, p, k) ==
    LET a == PExpr(t, p)
    IN IF a[1] = 0 THEN Fail
       ELSE IF k = 1
            THEN IF At(t, a[1]) = ")" THEN <<a[1] + 1, a[2]>> ELSE Fail
            ELSE IF At(t, a[1]) # "," THEN Fail
                 ELSE LET b == PArgs(t, a[1] + 1, k - 1)
                      IN IF b[1] = 0 THEN Fail ELSE <<b[1], a[2] \o b[2]>>
PAtom(t, p) ==
    LET c == At(t, p)
    IN CASE c \in Operands  -> <<p + 1, <<<<c, p>>>>>>
         [] c = "("         -> PArgs(t, p + 1, 1)
         [] c \in Functions -> IF At(t, p + 1) # "(" THEN Fail
                               ELSE LET a == PArgs(t, p + 2, Arity[c])
                                    IN IF a[1] = 0 THEN Fail ELSE <<a[1], a[2] \o <<<<c, p>>>>>>
         [] OTHER           -> Fail

\* <<ok, postfix>>
Parse(t) == LET a == PExpr(t, 1)
            IN IF a[1] = Len(t) + 1 THEN <<TRUE, a[2]>> ELSE <<FALSE, <<>>>>

-----------------------------------------------------------------------------
(* The meaning of a postfix program over the rationals, as far as it is       *)
(* rational: number tokens stand for the values of NumAt, constants for 4,    *)
(* variables for 3, f1 for abs, f3(a, b, c) for a + 10 b + 100 c; f5 is the conditional (a, op, b, then, else). *)

NumTable == <<2, 3, 1, 5, 4, 0, 7, 2, 6, 3, 1, 10>>
NumAt(p) == NumTable[((p - 1) % Len(NumTable)) + 1]

Cond(a, op, b, x, y) ==
    IF ~Both(a, b) \/ ~Both(x, y) \/ ~IsDef(op)
    THEN (IF Undef \in {a, op, b, x, y} THEN Undef ELSE Big)
    ELSE LET holds == CASE op = I(1) -> REq(a, b)
                        [] op = I(2) -> RLe(a, b)
                        [] op = I(3) -> RLe(b, a)
                        [] op = I(4) -> RLt(a, b)
                        [] op = I(5) -> RLt(b, a)
                        [] OTHER     -> ~REq(a, b)
         IN IF op \notin {I(k) : k \in 1..6} THEN Big ELSE IF holds THEN x ELSE y

RECURSIVE Run(_, _)
Run(prog, st) ==
    IF prog = <<>> THEN st[1]
    ELSE LET op == prog[1][1]
             n  == Len(st)
             Pop(k) == SubSeq(st, 1, n - k)
             st2 == CASE op = "n"   -> Append(st, I(NumAt(prog[1][2])))
                      [] op = "k"   -> Append(st, I(4))
                      [] op = "v"   -> Append(st, I(3))
                      [] op = "neg" -> Append(Pop(1), RNeg(st[n]))
                      [] op = "+"   -> Append(Pop(2), RAdd(st[n - 1], st[n]))
                      [] op = "-"   -> Append(Pop(2), RSub(st[n - 1], st[n]))
                      [] op = "*"   -> Append(Pop(2), RMul(st[n - 1], st[n]))
                      [] op = "/"   -> Append(Pop(2), RDiv(st[n - 1], st[n]))
                      [] op = "^"   -> Append(Pop(2), RPow(st[n - 1], st[n]))
                      [] op = "f1"  -> Append(Pop(1), RAbs(st[n]))
                      [] op = "f2"  -> Append(Pop(2), Poison(st[n - 1], st[n]))   \* logarithm: not rational
                      [] op = "f3"  -> Append(Pop(3), RAdd(st[n - 2], RAdd(RMul(I(10), st[n - 1]), RMul(I(100), st[n]))))
                      [] OTHER      -> Append(Pop(5), Cond(st[n-4], st[n-3], st[n-2], st[n-1], st[n]))
         IN Run(Tail(prog), st2)

Value(prog) == Run(prog, <<>>)
=============================================================================
