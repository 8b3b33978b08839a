-------------------------------- MODULE Cond ---------------------------------
(* Conditional blocks (C12): a block is a tree of comparisons whose leaves are *)
(* equations. It acts as the equation of the leaf that its comparisons select. *)
(* A program is a sequence of blocks, each determining one unknown, or two     *)
(* together with an equation beside it; blocks may compare constants, values   *)
(* solved by earlier blocks, or the very unknown they determine.               *)
(* The code turns a block into one equation if(a, op, b, t, f) = 0; Encoded    *)
(* says that this function of the unknowns vanishes exactly at the solution.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBlocks, MinBlocks, MaxDepth, Consts, Chain  \* Chain: blocks as deep as MaxDepth, of which one branch is a leaf at each level

VARIABLES cval, blocks, solved, bad, fin
vars == <<cval, blocks, solved, bad, fin>>
(* cval: constants; solved: for each block the value of its unknown:            *)
(* <<"is", v>>, <<"none">> (no leaf is consistent) or <<"any", set>>             *)

Pick(S) == RandomElement(S)
Ops == {"==", "<=", ">=", "<", ">", "!="}
Code == [o \in Ops |-> CASE o = "==" -> 1 [] o = "<=" -> 2 [] o = ">=" -> 3 [] o = "<" -> 4 [] o = ">" -> 5 [] o = "!=" -> 6]
Cmp(o, a, b) == CASE o = "==" -> a = b [] o = "<=" -> a <= b [] o = ">=" -> a >= b
                  [] o = "<" -> a < b [] o = ">" -> a > b [] o = "!=" -> a # b
ASSUME \A a, b \in -2..2 : /\ Cmp("<=", a, b) = ~Cmp(">", a, b) /\ Cmp(">=", a, b) = ~Cmp("<", a, b)
                           /\ Cmp("==", a, b) = ~Cmp("!=", a, b) /\ Cmp("<=", a, b) = (Cmp("<", a, b) \/ Cmp("==", a, b))
                           /\ Cmp("<", a, b) = Cmp(">", b, a) /\ Cmp("<=", a, b) = Cmp(">=", b, a)

(* Sides of a comparison, with a value in halves: <<"n", k>>, <<"v", const>>,    *)
(* <<"s", i>> (the unknown of block i), <<"x">> (the block's own unknown),       *)
(* <<"h", k>> (k/2), and sums, differences, products, negation and abs           *)
RECURSIVE Val(_, _)
Val(t, x) ==
    CASE t[1] = "n" -> t[2]
      [] t[1] = "v" -> cval[t[2]]
      [] t[1] = "s" -> solved[t[2]][2]
      [] t[1] = "+" -> Val(t[2], x) + Val(t[3], x)
      [] t[1] = "-" -> Val(t[2], x) - Val(t[3], x)
      [] t[1] = "*" -> Val(t[2], x) * Val(t[3], x)
      [] t[1] = "neg" -> -Val(t[2], x)
      [] t[1] = "abs" -> IF Val(t[2], x) < 0 THEN -Val(t[2], x) ELSE Val(t[2], x)
Val2(t, x) == IF t[1] = "h" THEN t[2] ELSE IF t[1] = "x" THEN 2 * x ELSE 2 * Val(t, x)

(* Trees: [leaf |-> TRUE, p, q, root] is the equation p*x + q*y = d that holds   *)
(* at x = root; [leaf |-> FALSE, l, op, r, t, f] is a comparison                 *)
RECURSIVE Choose2(_, _)
Choose2(T, x) == IF T.leaf THEN T ELSE IF Cmp(T.op, Val2(T.l, x), Val2(T.r, x)) THEN Choose2(T.t, x) ELSE Choose2(T.f, x)
RECURSIVE Leaves(_)
Leaves(T) == IF T.leaf THEN {T} ELSE Leaves(T.t) \cup Leaves(T.f)
RECURSIVE Count(_)
Count(T) == IF T.leaf THEN 0 ELSE 1 + Count(T.t) + Count(T.f)

(* Newton's method on a piecewise linear equation jumps to the root of the leaf  *)
(* selected at the current point                                                 *)
RECURSIVE Jump(_, _, _)
Jump(T, x, n) == IF n = 0 THEN <<>> ELSE LET r == Choose2(T, x).root IN IF Choose2(T, r).root = r THEN <<r>> ELSE Jump(T, r, n - 1)
Consistent(T) == {r \in {l.root : l \in Leaves(T)} : Choose2(T, r).root = r}
Outcome(b) == LET T == b.tree  C == Consistent(T)
              IN IF C = {} THEN <<"none">>
                 ELSE IF Jump(T, b.guess, 8) # <<>> THEN <<"is", Jump(T, b.guess, 8)[1]>> ELSE <<"any", C>>

-----------------------------------------------------------------------------
(* Random blocks                                                                 *)
Ref(z) == LET done == {i \in DOMAIN solved : solved[i][1] = "is"}
          IN CASE Pick(1..3) = 1 -> <<"n", Pick(-4..6)>>
               [] OTHER -> <<"v", Pick(Consts)>>
Side(z) == CASE Pick(1..2) = 1 -> Ref(z)
             [] Pick(1..3) = 1 -> <<Pick({"neg", "abs"}), Ref(z)>>
             [] OTHER -> <<Pick({"+", "-", "*"}), Ref(z), Ref(z)>>
Done == {i \in DOMAIN solved : solved[i][1] = "is"}
Leaf(path) == UNION {UNION {{[leaf |-> TRUE, p |-> p, q |-> q, root |-> 2 * path - 13 + Pick(0..1)]} : q \in {Pick({0, 0, p - 1, p + 1, 1 - p} \ {p})}} : p \in {Pick({1, 1, 2, -1, 3})}}
RECURSIVE Shape(_, _, _)
\* path: the position of a leaf, which gives it a root of its own
Shape(kind, depth, path) ==
    IF depth = 0 \/ (depth < MaxDepth /\ (IF Chain THEN Pick(1..12) = 1 ELSE Pick(1..5) < 3)) THEN Leaf(path)
    ELSE UNION {UNION {UNION {UNION {UNION {
        CASE kind = "self" -> {[leaf |-> FALSE, l |-> IF sw THEN <<"x">> ELSE h, r |-> IF sw THEN h ELSE <<"x">>, op |-> op, t |-> t, f |-> f]
                                : h \in {<<"h", 2 * Pick(-12..12) + 1>>}, sw \in {Pick(BOOLEAN)}}
          [] kind = "chain" /\ Done # {} ->
                UNION {{[leaf |-> FALSE, l |-> IF sw THEN <<"s", i>> ELSE n, r |-> IF sw THEN n ELSE <<"s", i>>, op |-> op, t |-> t, f |-> f]
                        : n \in {<<"n", solved[i][2] + Pick({-3, -2, -1, 1, 2, 3})>>}, sw \in {Pick(BOOLEAN)}} : i \in {Pick(Done)}}
          [] OTHER -> UNION {{[leaf |-> FALSE, l |-> l, op |-> op, t |-> t, f |-> f,
                        r |-> IF Pick(1..5) < 3 /\ Val(l, 0) >= 0 THEN (IF Pick(1..2) = 1 THEN <<"n", Val(l, 0)>> ELSE <<"+", <<"n", Val(l, 0) - 3>>, <<"n", 3>>>>) ELSE Side(2)]}
                       : l \in {Side(1)}}
        : op \in {Pick(Ops)}} : f \in IF ~Chain THEN Shape(kind, depth - 1, 2 * path + 1) ELSE IF side = 1 THEN Leaf(path) ELSE Shape(kind, depth - 1, path + 1)}
          : t \in IF ~Chain THEN Shape(kind, depth - 1, 2 * path) ELSE IF side = 2 THEN Leaf(path) ELSE Shape(kind, depth - 1, path + 1)}
          : side \in {Pick(1..2)}} : z \in {1}}
Clean(b) == b.kind # "pair" \/ \A l \in Leaves(b.tree) : l.p # l.q

Start == /\ cval = <<>>
         /\ cval' \in {[n \in Consts |-> Pick(-4..6)]}
         /\ UNCHANGED <<blocks, solved, bad, fin>>
AddBlock ==
    \E kind \in {Pick({"known", "known", "chain", "self", "self", "pair"})}, g \in {Pick(-9..9)}, s \in {Pick(-5..9)}, k \in {Pick(1..30)}, w \in {Pick(1..20)} :
    \E T \in Shape(kind, MaxDepth, 1) :
       LET b == [kind |-> kind, tree |-> T, guess |-> g, sum |-> s, badop |-> IF k = 1 THEN w ELSE 0] IN
       /\ ~T.leaf /\ Clean(b)
       /\ blocks' = Append(blocks, b)
       /\ solved' = Append(solved, Outcome(b))
       /\ bad' = (bad \/ k = 1)
       /\ UNCHANGED <<cval, fin>>

Init == cval = <<>> /\ blocks = <<>> /\ solved = <<>> /\ bad = FALSE /\ fin = FALSE
Next == /\ ~fin
        /\ IF cval = <<>> THEN Start
           ELSE IF Len(blocks) < MaxBlocks /\ (Len(blocks) < MinBlocks \/ Pick(1..4) > 1) THEN AddBlock
           ELSE /\ fin' = TRUE /\ UNCHANGED <<cval, blocks, solved, bad>>
                /\ PrintT("@@" \o ToJson([consts |-> cval, blocks |-> blocks, solved |-> solved, bad |-> bad]))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The function call that a block is turned into                                 *)
RECURSIVE Call(_, _)
Call(T, x) == IF T.leaf THEN T.p * (x - T.root)
              ELSE LET a == Val2(T.l, x)  b == Val2(T.r, x)  o == Code[T.op]
                   IN IF (o = 1 /\ a = b) \/ (o = 2 /\ a <= b) \/ (o = 3 /\ a >= b) \/ (o = 4 /\ a < b) \/ (o = 5 /\ a > b) \/ (o = 6 /\ a # b)
                      THEN Call(T.t, x) ELSE Call(T.f, x)
Encoded == \A i \in DOMAIN blocks : blocks[i].kind = "pair" \/ {x \in -14..20 : Call(blocks[i].tree, x) = 0} = Consistent(blocks[i].tree)
\* without its own unknown in its comparisons a block selects exactly one leaf
Single == \A i \in DOMAIN blocks : blocks[i].kind # "self" => solved[i][1] = "is"
=============================================================================
