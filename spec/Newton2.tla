------------------------------- MODULE Newton2 -------------------------------
(* Multi-variable root finding (C06) with two unknowns, against functions that *)
(* the environment decides as they are explored: in each cell of the integer   *)
(* grid that the search enters they become y + J (x - x0), or fail.            *)
EXTENDS Rational, Sequences, TLC, Json

CONSTANTS MaxPts, Wide

VARIABLES margin, x, k, cells, outcome, sx
vars == <<margin, x, k, cells, outcome, sx>>

YSet == IF Wide THEN {I(0), Rat(1, 25), Rat(-2, 25), Rat(2, 5), I(3)} ELSE {I(0), Rat(-2, 25), I(3)}
\* Jacobians: two rows of whole numbers and what they are divided by
JWide == { <<<<1, 0>>, <<0, 1>>, 1>>, <<<<0, 1>>, <<1, 0>>, 1>>, <<<<0, 2>>, <<-1, 1>>, 1>>, <<<<1, 2>>, <<2, 4>>, 1>>,
          <<<<0, 0>>, <<1, 1>>, 1>>, <<<<1, -1>>, <<1, 1>>, 1>>, <<<<3, 1>>, <<2, 1>>, 1>>, <<<<2, 0>>, <<1, -3>>, 1>>, <<<<1, 12>>, <<0, 1>>, 1>>,
          <<<<1, 0>>, <<0, -1>>, 2>>, <<<<1, -1>>, <<1, 1>>, 5>>, <<<<0, 1>>, <<-1, 0>>, 5>>, <<<<1, 0>>, <<1, 1>>, 100>> }
JSet == IF Wide THEN JWide ELSE { <<<<1, 2>>, <<2, 4>>, 1>>, <<<<1, -1>>, <<1, 1>>, 1>>, <<<<2, 0>>, <<1, -3>>, 1>>, <<<<1, 12>>, <<0, 1>>, 1>>,
          <<<<0, 1>>, <<1, 0>>, 1>>, <<<<0, 1>>, <<-1, 0>>, 5>> }
Margins == {Rat(1, 10), Rat(1, 2)}

Floor(q)  == q[1] \div q[2]
Cell1(q)  == Floor(RAdd(q, Rat(1, 2)))
CellOf(p) == <<Cell1(p[1]), Cell1(p[2])>>
Inside1(q) == RAdd(q, Rat(1, 2)) # Big /\ LET f == RSub(q, I(Cell1(q))) IN f # Big /\ RLt(RAbs(f), Rat(47, 100))
Norm2(p)  == RAdd(RMul(p[1], p[1]), RMul(p[2], p[2]))
Clear(n2, m) == n2 # Big /\ RSub(n2, RMul(m, m)) # Big /\ RLt(Rat(1, 1000), RAbs(RSub(n2, RMul(m, m))))
Small(n2, m) == RLe(n2, RMul(m, m))

Det(J) == J[1][1] * J[2][2] - J[1][2] * J[2][1]
\* the solution d of J d = y
Step(J, y) == << RDiv(RMul(I(J[3]), RSub(RMul(I(J[2][2]), y[1]), RMul(I(J[1][2]), y[2]))), I(Det(J))),
                 RDiv(RMul(I(J[3]), RSub(RMul(I(J[1][1]), y[2]), RMul(I(J[2][1]), y[1]))), I(Det(J))) >>
Apply(J, d) == << RDiv(RAdd(RMul(I(J[1][1]), d[1]), RMul(I(J[1][2]), d[2])), I(J[3])), RDiv(RAdd(RMul(I(J[2][1]), d[1]), RMul(I(J[2][2]), d[2])), I(J[3])) >>

Known(c) == \E i \in 1..Len(cells) : cells[i].cell = c
Cell(c)  == cells[CHOOSE i \in 1..Len(cells) : cells[i].cell = c]
Value(f, p) == LET d == Apply(f.jac, <<RSub(p[1], f.x0[1]), RSub(p[2], f.x0[2])>>)
               IN <<RAdd(f.y[1], d[1]), RAdd(f.y[2], d[2])>>
Fine(p) == Big \notin {p[1], p[2]}

Init == /\ margin \in Margins /\ x = <<I(1), I(-2)>>
        /\ k = 1 /\ cells = <<>> /\ outcome = "run" /\ sx = <<x>>

Choose(kind, y, J) ==
    /\ outcome = "run" /\ ~Known(CellOf(x))
    /\ cells' = Append(cells, [cell |-> CellOf(x), kind |-> kind, x0 |-> x, y |-> y, jac |-> J])
    /\ UNCHANGED <<margin, x, k, outcome, sx>>

Examine ==
    /\ outcome = "run" /\ Known(CellOf(x)) /\ k <= MaxPts
    /\ LET f == Cell(CellOf(x))
           y == Value(f, x)
           d == Step(f.jac, y)
           nx == <<RSub(x[1], d[1]), RSub(x[2], d[2])>>
       IN IF f.kind \in {"nan", "blank"} THEN outcome' = "never" /\ UNCHANGED <<x, k, sx>>
          ELSE IF f.kind # "ok" THEN outcome' = "fail" /\ UNCHANGED <<x, k, sx>>
          ELSE IF Det(f.jac) = 0 THEN outcome' = "never" /\ UNCHANGED <<x, k, sx>>
          ELSE /\ Fine(y) /\ Fine(d) /\ Fine(nx)
               /\ Clear(Norm2(y), margin) /\ Clear(Norm2(d), margin)
               /\ IF Small(Norm2(y), margin) /\ Small(Norm2(d), margin)
                  THEN outcome' = "accept" /\ UNCHANGED <<x, k, sx>>
                  ELSE IF \E i \in 1..Len(sx) : sx[i] = nx THEN outcome' = "cycle" /\ UNCHANGED <<x, k, sx>>
                  ELSE IF k = MaxPts THEN outcome' = "cut" /\ UNCHANGED <<x, k, sx>>
                  ELSE /\ Inside1(nx[1]) /\ Inside1(nx[2])
                       /\ x' = nx /\ k' = k + 1 /\ sx' = Append(sx, nx)
                       /\ UNCHANGED outcome
    /\ UNCHANGED <<margin, cells>>

Next == \/ \E y1 \in YSet, y2 \in YSet, J \in JSet : Choose("ok", <<y1, y2>>, J)
        \/ \E kind \in {"fail", "edge"} : Choose(kind, <<I(1), I(1)>>, <<<<1, 0>>, <<0, 1>>, 1>>)
        \* one of the functions is no number: everywhere, or around x (where both are within every margin)
        \/ \E kind \in {"nan", "blank"} : Choose(kind, <<Rat(1, 25), I(0)>>, <<<<1, 0>>, <<0, 1>>, 1>>)
        \/ Examine
Emit == outcome = "run" \/ PrintT("@@" \o ToJson([margin |-> margin, k |-> k, x |-> x, cells |-> cells, outcome |-> outcome, guess |-> sx[1]]))
Spec == Init /\ [][Next]_vars

Sound == outcome = "accept" => Small(Norm2(Value(Cell(CellOf(x)), x)), margin)
\* In a linear piece one step leads to its zero
OneStep == [][(k' = k + 1 /\ CellOf(x') = CellOf(x)) => Value(Cell(CellOf(x)), x') = <<I(0), I(0)>>]_vars
=============================================================================
