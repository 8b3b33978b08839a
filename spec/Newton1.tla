------------------------------- MODULE Newton1 -------------------------------
(* One-variable root finding (C05) against a function that the environment    *)
(* decides as it is explored: the real line is cut into cells around the      *)
(* integers, and when the search first enters a cell at x0 the function is    *)
(* chosen there to be y + s (x - x0), or to fail (everywhere in the cell, or  *)
(* everywhere but at x0). The search examines points until it accepts one;    *)
(* a limit on the number of points only cuts this short, so one behaviour     *)
(* decides the outcome for every limit.                                       *)
EXTENDS Rational, Sequences, TLC, Json

CONSTANTS MaxPts

VARIABLES margin, guess, x, k, cells, outcome, sx, sy
vars == <<margin, guess, x, k, cells, outcome, sx, sy>>

Ys == {I(0), Rat(1, 200), Rat(-1, 200), Rat(-2, 5), Rat(2, 5), I(3), I(-7)}
Ss == {I(1), I(-2), Rat(1, 3), Rat(1, 300), Rat(-1, 2500), I(41), I(0)}
Margins == {Rat(1, 100), Rat(1, 4)}

Floor(q)  == q[1] \div q[2]
CellOf(q) == Floor(RAdd(q, Rat(1, 2)))
\* far enough from the border of its cell that the slope is measured inside it
Inside(q) == RAdd(q, Rat(1, 2)) # Big /\ LET f == RSub(q, I(CellOf(q))) IN f # Big /\ RLt(RAbs(f), Rat(48, 100))
\* the comparison |q| <= m is decided by more than rounding
Clear(q, m) == RSub(RAbs(q), m) # Big /\ RLt(Rat(1, 1000), RAbs(RSub(RAbs(q), m)))

Known(c) == \E i \in 1..Len(cells) : cells[i].cell = c
Cell(c)  == cells[CHOOSE i \in 1..Len(cells) : cells[i].cell = c]

Init == /\ margin \in Margins
        /\ guess \in {I(1), Rat(-71, 20)}
        /\ x = guess /\ k = 1 /\ cells = <<>> /\ outcome = "run"
        /\ sx = <<guess>> /\ sy = <<>>

\* The environment decides the function around x
Choose(kind, y, s) ==
    /\ outcome = "run" /\ ~Known(CellOf(x))
    /\ cells' = Append(cells, [cell |-> CellOf(x), kind |-> kind, x0 |-> x, y |-> y, s |-> s])
    /\ UNCHANGED <<margin, guess, x, k, outcome, sx, sy>>

\* The search examines the point x
Examine ==
    /\ outcome = "run" /\ Known(CellOf(x)) /\ k <= MaxPts
    /\ LET f == Cell(CellOf(x))
           y == RAdd(f.y, RMul(f.s, RSub(x, f.x0)))
           d == RDiv(y, f.s)
           nx == RSub(x, d)
       IN IF f.kind # "ok"
          THEN outcome' = (IF f.kind \in {"nan", "blank"} THEN "never" ELSE "fail") /\ UNCHANGED <<x, k, sx>> /\ sy' = Append(sy, y)
          ELSE /\ y # Big /\ nx # Big
               /\ sy' = Append(sy, y)
               /\ IF f.s = I(0)
                  THEN outcome' = "never" /\ UNCHANGED <<x, k, sx>>
                  ELSE /\ Clear(y, margin) /\ Clear(d, margin)
                       /\ IF RLe(RAbs(y), margin) /\ RLe(RAbs(d), margin)
                          THEN outcome' = "accept" /\ UNCHANGED <<x, k, sx>>
                          ELSE IF \E i \in 1..Len(sx) : sx[i] = nx THEN outcome' = "cycle" /\ UNCHANGED <<x, k, sx>>
                          ELSE IF k = MaxPts THEN outcome' = "cut" /\ UNCHANGED <<x, k, sx>>
                          ELSE /\ Inside(nx) /\ RLt(RAbs(nx), I(4000))
                               /\ x' = nx /\ k' = k + 1 /\ sx' = Append(sx, nx)
                               /\ UNCHANGED outcome
    /\ UNCHANGED <<margin, guess, cells>>

Next == \/ \E y \in Ys, s \in Ss : Choose("ok", y, s)
        \/ \E kind \in {"fail", "edge", "nan"} : Choose(kind, Rat(1, 2), I(1))
        \* no number around x, where the value is within every margin
        \/ Choose("blank", Rat(1, 200), I(1))
        \/ Examine
Emit == outcome = "run" \/ PrintT("@@" \o ToJson([margin |-> margin, guess |-> guess, k |-> k, x |-> x, cells |-> cells, outcome |-> outcome, sx |-> sx, sy |-> sy]))
Spec == Init /\ [][Next]_vars

\* What is accepted is a point where the function and the next step are small
Sound == outcome = "accept" => LET f == Cell(CellOf(x))  y == RAdd(f.y, RMul(f.s, RSub(x, f.x0)))
                               IN RLe(RAbs(y), margin) /\ f.s # I(0) /\ RLe(RAbs(RDiv(y, f.s)), margin)
\* ... and it is the first such point on the way
First == \A i \in 1..(Len(sx) - 1) : Cell(CellOf(sx[i])).kind = "ok" => LET f == Cell(CellOf(sx[i]))  y == RAdd(f.y, RMul(f.s, RSub(sx[i], f.x0)))
                               IN ~(RLe(RAbs(y), margin) /\ f.s # I(0) /\ RLe(RAbs(RDiv(y, f.s)), margin))
=============================================================================
