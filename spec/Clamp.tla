-------------------------------- MODULE Clamp --------------------------------
(* One variable with a domain (C04): construction, assignment and the in-place *)
(* operations. Numbers are rationals or the infinities.                        *)
EXTENDS Rational, Sequences, TLC, Json

CONSTANTS MaxSteps

PInf == <<1, -1>>   NInf == <<-1, -1>>
IsInf(q) == q = PInf \/ q = NInf
Sgn(q)  == IF q[1] > 0 THEN 1 ELSE IF q[1] < 0 THEN -1 ELSE 0
Inf(s)  == IF s > 0 THEN PInf ELSE NInf

XLt(p, q) == IF p = q THEN FALSE
             ELSE IF p = NInf \/ q = PInf THEN TRUE
             ELSE IF p = PInf \/ q = NInf THEN FALSE ELSE RLt(p, q)
\* Undef stands for "not a number"
XAdd(p, q) == IF IsInf(p) \/ IsInf(q)
              THEN (IF IsInf(p) /\ IsInf(q) /\ p # q THEN Undef ELSE IF IsInf(p) THEN p ELSE q)
              ELSE RAdd(p, q)
XNeg(q)    == IF q = PInf THEN NInf ELSE IF q = NInf THEN PInf ELSE RNeg(q)
XMul(p, q) == IF IsInf(p) \/ IsInf(q)
              THEN (IF Sgn(p) * Sgn(q) = 0 THEN Undef ELSE Inf(Sgn(p) * Sgn(q)))
              ELSE RMul(p, q)
XDiv(p, q) == IF IsInf(q) THEN (IF IsInf(p) THEN Undef ELSE I(0))
              ELSE IF q = I(0) THEN (IF p = I(0) THEN Undef ELSE Inf(Sgn(p)))
              ELSE IF IsInf(p) THEN Inf(Sgn(p) * Sgn(q))
              ELSE RDiv(p, q)

Set(lo, hi, v) == IF XLt(hi, v) THEN hi ELSE IF XLt(v, lo) THEN lo ELSE v

Ops == {"set", "+=", "-=", "*=", "/="}
Apply(op, v, a) == CASE op = "set" -> a [] op = "+=" -> XAdd(v, a) [] op = "-=" -> XAdd(v, XNeg(a))
                     [] op = "*=" -> XMul(v, a) [] OTHER -> XDiv(v, a)

VARIABLES val, lo, hi, hist, fin
vars == <<val, lo, hi, hist, fin>>

H(n) == Rat(n, 2)
Q(n) == Rat(n, 4)
Ends    == {I(-3), I(0), I(2), Q(9)}
Args    == {I(-5), I(-1), H(-1), I(0), Q(1), I(1), I(3), I(100), PInf, NInf}

Domains == {<<a, b>> \in (Ends \cup {NInf, PInf}) \X (Ends \cup {NInf, PInf}) :
               ~XLt(b, a) /\ a # PInf /\ b # NInf}

Log(op, a) == hist' = Append(hist, <<op, a, val'>>)

Init == /\ \E d \in Domains, a \in Args :
              lo = d[1] /\ hi = d[2] /\ val = Set(d[1], d[2], a) /\ hist = <<<<"new", a, Set(d[1], d[2], a)>>>>
        /\ fin = FALSE

Do(op, a) == /\ Apply(op, val, a) \notin {Undef, Big}
             /\ val' = Set(lo, hi, Apply(op, val, a))
             /\ Log(op, a) /\ UNCHANGED <<lo, hi>>

Out(h) == PrintT("@@" \o ToJson([lo |-> lo, hi |-> hi, steps |-> h]))
Next == /\ Len(hist) <= MaxSteps /\ fin' = FALSE
        /\ \E op \in Ops, a \in Args : Do(op, a)
        /\ Out(hist')
Spec == Init /\ [][Next]_vars
View == <<val, lo, hi, Len(hist)>>

Pick(S) == RandomElement(S)
RandArg(n) == LET k == Pick(1..12) IN IF k = 1 THEN PInf ELSE IF k = 2 THEN NInf ELSE IF k < 7 THEN Rat(Pick(-9..9), Pick({1, 2, 4})) ELSE I(Pick(-4..4))
\* the first step constructs the variable; later, a step whose result is not a
\* number or not representable is replaced
DeepInit == lo = I(0) /\ hi = I(0) /\ val = I(0) /\ hist = <<>> /\ fin = FALSE
New == \E a \in {Pick({NInf} \cup {H(n) : n \in -20..20})}, w \in {Pick(0..30)}, inf \in {Pick(1..3)}, x \in {RandArg(0)} :
         LET b == IF inf = 1 THEN PInf ELSE IF a = NInf THEN I(w - 15) ELSE RAdd(a, Q(w))
         IN lo' = a /\ hi' = b /\ val' = Set(a, b, x) /\ hist' = <<<<"new", x, Set(a, b, x)>>>>
DeepNext ==
    /\ ~fin
    /\ IF Len(hist) > MaxSteps
       THEN fin' = TRUE /\ Out(hist) /\ UNCHANGED <<val, lo, hi, hist>>
       ELSE /\ fin' = FALSE
            /\ IF hist = <<>> THEN New
               ELSE \E op \in {Pick(Ops)}, a \in {RandArg(0)} :
                       IF Apply(op, val, a) \in {Undef, Big} THEN Do("set", I(1)) ELSE Do(op, a)
DeepSpec == DeepInit /\ [][DeepNext]_vars

InDomain    == ~XLt(val, lo) /\ ~XLt(hi, val)
DomainFixed == [][hist # <<>> => (lo' = lo /\ hi' = hi)]_vars
\* a value is kept unless it crosses a bound, and then it is that bound
Result == [][hist # <<>> /\ Len(hist') > Len(hist) =>
             LET s == hist'[Len(hist')]  r == Apply(s[1], val, s[2])
             IN IF ~XLt(r, lo) /\ ~XLt(hi, r) THEN val' = r ELSE val' = IF XLt(r, lo) THEN lo ELSE hi]_vars
=============================================================================
