-------------------------------- MODULE Whole --------------------------------
(* Whole programs (C27): everything the language offers, together. A program is *)
(* built around a hidden assignment: step by step another unknown, or a group of *)
(* two or three coupled ones, is determined by equations over the names that are *)
(* known by then. The sides of the equations are expressions that the machine     *)
(* makes up for a value: with constants, values solved elsewhere, conversions,    *)
(* functions, comparisons and all operators. An equation may be a conditional     *)
(* block, nested to any depth, the selected branch of which is the equation.      *)
(* The invariants say that the hidden assignment satisfies every equation and     *)
(* that every step determines its unknowns; what the program is solved to is      *)
(* therefore this assignment.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Unknowns, Consts, Idle, Spare, Depth

VARIABLES sol, plan, known, firm, eqs, groups, fault, fin
vars == <<sol, plan, known, firm, eqs, groups, fault, fin>>

Pick(S) == RandomElement(S)
Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Ops == <<"==", "<=", ">=", "<", ">", "!=">>
Cmp(o, a, b) == CASE o = 1 -> a = b [] o = 2 -> a <= b [] o = 3 -> a >= b
                  [] o = 4 -> a < b [] o = 5 -> a > b [] o = 6 -> a # b

\* ------------------------------------------------------------ expressions
(* <<"n", k>>, <<"v", name>>, <<"conv", k>> (a conversion with this factor),      *)
(* <<"one">> (a physical constant by itself), <<"fn", k>> (a function that gives  *)
(* k), <<"neg", a>>, <<"abs", a>>, <<op, a, b>>, <<"if", a, code, b, t, f>>         *)
RECURSIVE Val(_, _)
Val(t, s) ==
    CASE t[1] = "n" -> t[2]
      [] t[1] = "v" -> s[t[2]]
      [] t[1] = "conv" -> t[2]
      [] t[1] = "one" -> 1
      [] t[1] = "fn" -> t[2]
      [] t[1] = "neg" -> -Val(t[2], s)
      [] t[1] = "abs" -> Abs(Val(t[2], s))
      [] t[1] = "+" -> Val(t[2], s) + Val(t[3], s)
      [] t[1] = "-" -> Val(t[2], s) - Val(t[3], s)
      [] t[1] = "*" -> Val(t[2], s) * Val(t[3], s)
      [] t[1] = "/" -> LET a == Val(t[2], s)  b == Val(t[3], s) IN IF b < 0 THEN (-a) \div (-b) ELSE a \div b
      [] t[1] = "^" -> Pow(Val(t[2], s), Val(t[3], s))
      [] t[1] = "if" -> IF Cmp(t[3], Val(t[2], s), Val(t[4], s)) THEN Val(t[5], s) ELSE Val(t[6], s)
RECURSIVE Divides(_, _)
\* every division comes out even, and nothing is divided by zero
Divides(t, s) ==
    CASE t[1] \in {"n", "v", "conv", "one", "fn"} -> TRUE
      [] t[1] \in {"neg", "abs"} -> Divides(t[2], s)
      [] t[1] = "if" -> Divides(t[2], s) /\ Divides(t[4], s) /\ Divides(t[5], s) /\ Divides(t[6], s)
      [] t[1] = "/" -> Divides(t[2], s) /\ Divides(t[3], s) /\ Val(t[3], s) # 0 /\ Val(t[2], s) % Abs(Val(t[3], s)) = 0
      [] OTHER -> Divides(t[2], s) /\ Divides(t[3], s)
RECURSIVE Names(_)
Names(t) == CASE t[1] = "v" -> {t[2]}
              [] t[1] \in {"n", "conv", "one", "fn"} -> {}
              [] t[1] \in {"neg", "abs"} -> Names(t[2])
              [] t[1] = "if" -> Names(t[2]) \cup Names(t[4]) \cup Names(t[5]) \cup Names(t[6])
              [] OTHER -> Names(t[2]) \cup Names(t[3])

(* The set of one expression over the names K with the value v. sure: the value   *)
(* is not the result of any rounding                                              *)
Conv == {3, 12, 24, 60, 100, 1000}
Squares == {0, 1, 4, 9, 16, 25, 36, 49, 64, 81}
Root(v) == CHOOSE r \in 0..9 : r * r = v
Factors(v) == {f \in {1, -1, 2, 3, -2, -3, 4} : v % Abs(f) = 0}
Other(S, x) == IF S \ {x} = {} THEN S ELSE S \ {x}
RECURSIVE E(_, _, _, _), Two(_, _, _, _, _)
\* two expressions, with an operator
Two(op, a, b, d, K) == UNION {{<<op, l, r>> : r \in E(b, d - 1, K[1], K[2])} : l \in E(a, d - 1, K[1], K[2])}
Leaf(v, K, sure) ==
    IF K = {} \/ Pick(1..3) = 1 THEN {<<"n", v>>}
    ELSE UNION {{IF sol[n] = v THEN <<"v", n>> ELSE IF Pick(1..2) = 1 THEN <<"+", <<"v", n>>, <<"n", v - sol[n]>>>> ELSE <<"-", <<"n", v + sol[n]>>, <<"v", n>>>>}
                : n \in {Pick(K)}}
\* sides of a comparison that comes out as wanted, which rounding cannot decide
Sides(o, want, d, K) ==
    UNION {UNION {IF Cmp(o, p[1], p[2]) # want THEN {}
                  ELSE LET KK == IF p[1] = p[2] THEN K \cap Consts ELSE K
                       IN UNION {{<<l, r>> : r \in E(p[2], d, KK, p[1] = p[2])} : l \in E(p[1], d, KK, p[1] = p[2])}
                  : p \in {Pick({q \in {<<a, a + x>> : x \in {-3, -1, 0, 1, 5}} : Cmp(o, q[1], q[2]) = want})}} : a \in {Pick(-5..9)}}
Half(v) == {Pick(-9..9)}
E(v, d, K, sure) ==
    IF d = 0 THEN Leaf(v, K, sure)
    ELSE LET KS == <<K, sure>> IN
      UNION {CASE c = 1 -> UNION {Two("+", a, v - a, d, KS) : a \in Half(v)}
               [] c = 2 -> UNION {Two("-", a, a - v, d, KS) : a \in Half(v)}
               [] c \in {3, 4} -> UNION {Two("*", f, v \div f, d, KS) : f \in {Pick({x \in Factors(v) : x > 0})}}
               [] c = 5 -> {<<"neg", l>> : l \in E(-v, d - 1, K, sure)}
               [] c = 6 /\ v >= 0 -> {<<"abs", l>> : l \in E(Pick({1, -1}) * v, d - 1, K, sure)}
               [] c \in {7, 8} /\ v \in Squares -> UNION {{<<"^", l, <<"n", 2>>>> : l \in E(r, d - 1, K, sure)} : r \in {Pick({1, -1}) * Root(v)}}
               [] c = 7 /\ v \in {8, -8, 27, -27, 64} -> LET r == CHOOSE x \in -3..4 : x * x * x = v IN {<<"^", l, <<"n", 3>>>> : l \in E(r, d - 1, K, sure)}
               [] c \in {8, 9} /\ Abs(v) <= 40 -> UNION {Two("/", v * f, f, d, KS) : f \in {Pick({1, 2, 3, -1, -2, 4})}}
               [] c = 10 /\ ~sure -> UNION {UNION {{<<"+", <<"*", <<"conv", k>>, l>>, r>> : r \in E(v - k * q, d - 1, K, sure)} : l \in E(q, d - 1, K, sure)}
                                             : k \in {Pick(Conv)}, q \in {Pick(-2..2)}}
               [] c = 11 /\ ~sure -> {<<"*", <<"one">>, l>> : l \in E(v, d - 1, K, sure)}
               [] c = 12 /\ ~sure /\ v \in 0..3 -> {<<"fn", v>>}
               [] c \in {13, 14} -> UNION {UNION {UNION {{IF w THEN <<"if", s[1], o, s[2], t, f>> ELSE <<"if", s[1], o, s[2], f, t>>
                                                         : f \in E(Pick(-9..9), d - 1, K, sure)} : t \in E(v, d - 1, K, sure)}
                                                        : s \in Sides(o, w, d - 1, K)} : o \in {Pick(1..6)}, w \in {Pick(BOOLEAN)}}
               [] OTHER -> Leaf(v, K, sure)
             : c \in {Pick(1..15)}}

(* Expressions that are linear in the unknown x (with a slope that is not 0), in   *)
(* what is known otherwise                                                          *)
RECURSIVE Lin(_, _, _)
Lin(x, d, K) ==
    IF d = 0 THEN {<<"v", x>>}
    ELSE UNION {UNION {
           CASE c = 1 -> {<<"+", u, e>> : e \in E(Pick(-9..9), d - 1, K, FALSE)}
             [] c = 2 -> {<<"+", e, u>> : e \in E(Pick(-9..9), d - 1, K, FALSE)}
             [] c = 3 -> {<<"-", e, u>> : e \in E(Pick(-9..9), d - 1, K, FALSE)}
             [] c \in {4, 5} /\ Abs(Val(u, sol)) <= 100 -> {<<"*", e, u>> : e \in E(Pick({-3, -2, -1, 2, 3, 4}), d - 1, K, FALSE)}
             [] c = 6 -> {<<"neg", u>>}
             [] c = 7 -> UNION {{<<"/", <<"*", <<"n", k>>, u>>, e>> : e \in E(k, d - 1, K, FALSE)} : k \in {Pick({2, 3, -2})}}
             [] c = 8 -> UNION {UNION {UNION {{IF w THEN <<"if", s[1], o, s[2], u, f>> ELSE <<"if", s[1], o, s[2], f, u>>
                                  : f \in E(Pick(-9..9), d - 1, K, FALSE)} : s \in Sides(o, w, d - 1, K)} : o \in {Pick(1..6)}} : w \in {Pick(BOOLEAN)}}
             [] OTHER -> {u}
             : c \in {Pick(1..10)}} : u \in Lin(x, d - 1, K)}

\* ------------------------------------------------------------- equations
(* <<"eq", left, right>>; <<"cond", a, op, b, equation, equation>>                 *)
RECURSIVE Holds(_, _), EqNames(_), Even(_, _), Selected(_, _)
Selected(e, s) == IF e[1] = "eq" THEN e ELSE IF Cmp(e[3], Val(e[2], s), Val(e[4], s)) THEN Selected(e[5], s) ELSE Selected(e[6], s)
Holds(e, s) == LET l == Selected(e, s) IN Val(l[2], s) = Val(l[3], s)
EqNames(e) == IF e[1] = "eq" THEN Names(e[2]) \cup Names(e[3]) ELSE Names(e[2]) \cup Names(e[4]) \cup EqNames(e[5]) \cup EqNames(e[6])
Even(e, s) == IF e[1] = "eq" THEN Divides(e[2], s) /\ Divides(e[3], s) ELSE Divides(e[2], s) /\ Divides(e[4], s) /\ Even(e[5], s) /\ Even(e[6], s)
\* how far apart the sides of the equation are
Gap(e, s) == LET l == Selected(e, s) IN Val(l[2], s) - Val(l[3], s)

Sided(l, r) == IF Pick(BOOLEAN) THEN <<"eq", l, r>> ELSE <<"eq", r, l>>
Dep == Pick(1..Depth)
\* one unknown: a linear expression of it, and what it comes to
One(x, K, off) == UNION {{Sided(u, e) : e \in E(Val(u, sol) + off, Dep, K, FALSE)} : u \in Lin(x, Dep, K)}
\* a product or a power of which the guess leads to the solution
Curved(x, K) == LET g == plan.guess[x]  v == sol[x]  up == g[1] >= v
                IN UNION {CASE c = 1 /\ up /\ v >= 2 /\ g[1] <= v + 6 -> {Sided(<<"^", <<"v", x>>, <<"n", k>>>>, e) : e \in E(Pow(v, k), Dep, K, FALSE)}
                            [] OTHER -> UNION {UNION {{Sided(<<"*", <<"-", <<"v", x>>, a>>, <<"-", <<"v", x>>, b>>>>, <<"n", 0>>)
                                             : a \in E(v, Dep, K, FALSE)} : b \in E(IF up THEN v - r ELSE v + r, Dep, K, FALSE)} : r \in {Pick(1..6)}}
                          : c \in {Pick(1..2)}, k \in {Pick(2..3)}}
\* several unknowns: row holds their factors
RECURSIVE Terms(_, _, _)
Terms(row, xs, K) ==
    IF xs = <<>> THEN {<<>>}
    ELSE UNION {IF row[1] = 0 THEN {rest}
                ELSE {<<IF row[1] = 1 THEN <<"v", xs[1]>> ELSE IF sw THEN <<"*", e, <<"v", xs[1]>>>> ELSE <<"*", <<"v", xs[1]>>, e>>>> \o rest
                      : e \in E(row[1], Pick(0..1), K, FALSE), sw \in {Pick(BOOLEAN)}}
                : rest \in Terms(Tail(row), Tail(xs), K)}
RECURSIVE Added(_)
Added(ts) == IF Len(ts) = 1 THEN ts[1] ELSE <<"+", Added(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)]>>
\* the terms are spread over both sides
Row(row, xs, K, off) ==
    UNION {UNION {IF Len(ts) = 1 \/ Pick(1..3) > 1
                  THEN {Sided(Added(ts), e) : e \in E(Val(Added(ts), sol) + off, Dep, K, FALSE)}
                  ELSE {<<"eq", Added(SubSeq(ts, 1, 1)), <<"-", e, Added(Tail(ts))>>>> : e \in E(Val(Added(ts), sol) + off, Dep, K, FALSE)}
                  : z \in {1}} : ts \in Terms(row, xs, K)}
\* the equation as it is, or in a conditional block: its other branches hold
\* equations that are wrong
Blocked(e, wrong, K, d) ==
    UNION {UNION {UNION {{IF w THEN <<"cond", s[1], o, s[2], e, f>> ELSE <<"cond", s[1], o, s[2], f, e>> : s \in Sides(o, w, 1, K)}
                         : f \in wrong} : o \in {Pick(1..6)}} : w \in {Pick(BOOLEAN)}}
Maybe(e, wrong, wrong2, K) ==
    CASE Pick(1..4) > 1 -> {e}
      \* both branches are the same
      [] Pick(1..6) = 1 -> Blocked(e, {e}, K, 1)
      [] Pick(1..3) > 1 -> Blocked(e, wrong, K, 1)
      [] Pick(1..2) = 1 -> UNION {Blocked(b, wrong2, K, 1) : b \in Blocked(e, wrong, K, 1)}
      \* the branch that is not taken holds a block, too
      [] OTHER -> UNION {Blocked(e, {b}, K, 1) : b \in UNION {Blocked(f, wrong2, K, 1) : f \in wrong}}

\* -------------------------------------------------------------- the machine
Vals == -9..9
Todo == Unknowns \ known
MakePlan ==
    /\ plan = <<>>
    /\ \E s \in {[n \in Unknowns \cup Consts \cup Idle |-> Pick(Vals)]}, g \in {[n \in Unknowns \cup Spare |-> IF Pick(1..2) = 1 THEN <<>> ELSE <<Pick(Vals)>>]},
          w \in {[n \in Unknowns \cup Spare |-> IF Pick(1..3) > 1 THEN <<>> ELSE <<Pick(1..8), Pick(1..8)>>]} :
       /\ sol' = s
       /\ plan' = [guess |-> g, dom |-> [n \in Unknowns \cup Spare |-> IF w[n] = <<>> THEN <<>>
                      ELSE IF n \in Spare THEN <<w[n][1] - 9, w[n][1] + w[n][2]>> ELSE LET at == IF g[n] = <<>> THEN IF Pick(1..3) = 1 THEN 1 ELSE s[n] ELSE g[n][1] IN <<Min(at, s[n]) - w[n][1], Max(at, s[n]) + w[n][2]>>]]
    /\ known' = Consts /\ firm' = Consts /\ UNCHANGED <<eqs, groups, fault, fin>>
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Coef(z) == Pick({-3, -2, -1, 1, 1, 2, 3})
\* what is determined by a group, or by an equation that needs one, is soft: the
\* solver is free to take several steps together, so that these names only enter
\* further equations as terms, which keeps all of it linear
Soft == known \ firm
Extra(e, x) == IF Soft = {} \/ Pick(1..2) = 1 THEN {e}
               ELSE {<<"eq", <<"+", e[2], <<"*", <<"n", k>>, <<"v", y>>>>>>, <<"+", e[3], <<"n", k * sol[y]>>>>>> : k \in {Pick({-2, -1, 1, 2, 3})}, y \in {Pick(Soft)}}
Grow(xs, es, hard) ==
    /\ eqs' = eqs \o es /\ known' = known \cup {xs[i] : i \in DOMAIN xs}
    /\ firm' = IF hard THEN firm \cup {xs[i] : i \in DOMAIN xs} ELSE firm
    /\ groups' = Append(groups, [xs |-> xs, n |-> Len(es)]) /\ UNCHANGED <<sol, plan, fault, fin>>
Wrong == Pick({-5, -3, -2, 2, 4, 7})
Single == \E x \in {Pick(Todo)} :
          IF plan.guess[x] # <<>> /\ plan.guess[x][1] # sol[x] /\ Pick(1..3) = 1
          THEN \E e \in Curved(x, firm) : Grow(<<x>>, <<e>>, TRUE)
          ELSE \E e0 \in One(x, firm, 0) : \E e1 \in Extra(e0, x) : \E e \in Maybe(e1, One(x, firm, Wrong), One(x, firm, Wrong), firm) :
               Grow(<<x>>, <<e>>, e1 = e0)
Double == /\ Cardinality(Todo) >= 2
          /\ \E x \in {Pick(Todo)} : \E y \in {Pick(Todo \ {x})} : \E p \in {<<Coef(1), Coef(2)>>}, q \in {<<Coef(3), Coef(4)>>} :
             IF Det2(p, q) = 0 THEN UNCHANGED vars
             ELSE \E a0 \in Row(p, <<x, y>>, firm, 0), b \in Row(q, <<x, y>>, firm, 0) : \E a1 \in Extra(a0, x) :
                  \E a \in Maybe(a1, Row(q, <<x, y>>, firm, Wrong), Row(p, <<x, y>>, firm, Wrong), firm) : Grow(<<x, y>>, <<a, b>>, FALSE)
Triple == /\ Cardinality(Todo) >= 3
          /\ \E x \in {Pick(Todo)} : \E y \in {Pick(Todo \ {x})} : \E z \in {Pick(Todo \ {x, y})} : \E h \in {Pick(1..4)} :
             \E p \in {<<Coef(1), Coef(2), IF h = 4 THEN Coef(7) ELSE 0>>}, q \in {<<IF h = 1 THEN 0 ELSE Coef(3), Coef(4), Coef(8)>>}, r \in {<<Coef(5), IF h = 2 THEN 0 ELSE Coef(6), Coef(9)>>} :
             IF Det3(p, q, r) = 0 \/ Abs(Det3(p, q, r)) > 40 THEN UNCHANGED vars
             ELSE \E a \in Row(p, <<x, y, z>>, firm, 0), b0 \in Row(q, <<x, y, z>>, firm, 0), c \in Row(r, <<x, y, z>>, firm, 0) :
                  \E b \in Maybe(b0, Row(q, <<x, y, z>>, firm, Wrong), Row(q, <<x, y, z>>, firm, Wrong), firm) : Grow(<<x, y, z>>, <<a, b, c>>, FALSE)

(* What makes a program fail: a domain without the solution, a conversion or a     *)
(* constant that does not exist, a text that is not an equation; or "left": an      *)
(* equation with two unknowns too many, which are left out of the result             *)
Outside == {x \in Unknowns : LET g == IF plan.guess[x] = <<>> THEN 1 ELSE plan.guess[x][1]
                             IN Abs(sol[x] - g) >= 2 /\ \E i \in DOMAIN groups : groups[i].xs = <<x>>}
Narrow(x) == LET g == IF plan.guess[x] = <<>> THEN 1 ELSE plan.guess[x][1]
             IN IF sol[x] > g THEN <<g - Pick(1..5), sol[x] - 1>> ELSE <<sol[x] + 1, g + Pick(1..5)>>
Spoil == /\ fault = ""
         /\ \E c \in {Pick(1..10)} : \E f \in {CASE c <= 5 -> "none" [] c <= 7 -> "left" [] c = 8 -> "outside" [] c = 9 -> "unit" [] OTHER -> "text"} :
            IF f = "outside" /\ Outside # {}
            THEN \E x \in {Pick(Outside)} : fault' = f /\ plan' = [plan EXCEPT !.dom[x] = Narrow(x)] /\ UNCHANGED <<sol, known, firm, eqs, groups, fin>>
            ELSE IF f = "left"
            THEN \E x \in {Pick(Spare)} : \E y \in {Pick(Spare \ {x})} :
                 /\ fault' = f /\ \E k \in E(Pick(Vals), 1, firm, FALSE), op \in {Pick({"+", "-", "*"})} :
                                     eqs' = Append(eqs, Sided(<<op, <<"v", x>>, <<"v", y>>>>, k))
                 /\ UNCHANGED <<sol, plan, known, firm, groups, fin>>
            ELSE fault' = (IF f = "outside" THEN "none" ELSE f) /\ UNCHANGED <<sol, plan, known, firm, eqs, groups, fin>>
Finish == /\ fin' = TRUE /\ UNCHANGED <<sol, plan, known, firm, eqs, groups, fault>>
          /\ PrintT("@@" \o ToJson([sol |-> sol, consts |-> Consts \cup Idle, plan |-> plan, eqs |-> eqs, groups |-> groups, fault |-> fault]))
Init == sol = <<>> /\ plan = <<>> /\ known = {} /\ firm = {} /\ eqs = <<>> /\ groups = <<>> /\ fault = "" /\ fin = FALSE
Next == /\ ~fin
        /\ IF plan = <<>> THEN MakePlan
           ELSE IF Todo # {} THEN \E k \in {Pick(1..5)} : IF k = 5 /\ Cardinality(Todo) >= 3 THEN Triple ELSE IF k = 4 /\ Cardinality(Todo) >= 2 THEN Double ELSE Single
           ELSE IF fault = "" THEN Spoil ELSE Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Mine == IF fault = "left" THEN SubSeq(eqs, 1, Len(eqs) - 1) ELSE eqs
AllHold == \A i \in DOMAIN Mine : Holds(Mine[i], sol)
AllEven == \A i \in DOMAIN Mine : Even(Mine[i], sol)
\* a step only uses what is known by then, and its equations change with each unknown
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE Before(i - 1) + groups[i].n
Ordered == \A i \in DOMAIN groups : \A j \in 1..groups[i].n :
             EqNames(eqs[Before(i - 1) + j]) \subseteq Consts \cup UNION {{groups[k].xs[m] : m \in DOMAIN groups[k].xs} : k \in 1..i}
Determined == \A i \in DOMAIN groups : Len(groups[i].xs) = groups[i].n /\
                \A m \in DOMAIN groups[i].xs : \E j \in 1..groups[i].n : \E d \in {1, 2} :
                   ~Holds(eqs[Before(i - 1) + j], [sol EXCEPT ![groups[i].xs[m]] = @ + d])
InDomain == fault # "outside" => plan = <<>> \/ \A x \in Unknowns : plan.dom[x] = <<>> \/ (plan.dom[x][1] < sol[x] /\ sol[x] < plan.dom[x][2])
=============================================================================
