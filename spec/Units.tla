-------------------------------- MODULE Units --------------------------------
(* Units and conversions (C13). The size of a unit is an element of the free   *)
(* abelian group over the listed (raw) units: a function from raw units to     *)
(* exponents. Derived units are composed by the rules below. A measured amount *)
(* is converted step by step: the state is the amount's unit and the factor it *)
(* has been multiplied with; factor * size(unit) never changes.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxSteps

VARIABLES q, unit, start, factor, path
vars == <<q, unit, start, factor, path>>

(* raw[quantity] = sequence of unit names                                       *)
Raw == JsonDeserialize("units_raw.json")
Q0 == DOMAIN Raw
Quantities == Q0 \cup {"SPRING FORCE"}
RawNames(k) == IF k \in Q0 THEN {Raw[k][i] : i \in DOMAIN Raw[k]} ELSE {}

(* Sizes                                                                        *)
One == <<>>
Exp(v, r) == IF r \in DOMAIN v THEN v[r] ELSE 0
Norm(v) == [r \in {x \in DOMAIN v : v[x] # 0} |-> v[r]]
Mul(v, w) == Norm([r \in DOMAIN v \cup DOMAIN w |-> Exp(v, r) + Exp(w, r)])
Inv(v) == [r \in DOMAIN v |-> -v[r]]
Div(v, w) == Mul(v, Inv(w))
Base(k, n) == (k \o ":" \o n) :> 1

(* Tables: sets of <<name, size>>. A composed unit takes the place of a listed  *)
(* unit of the same name                                                        *)
Over(new, old) == LET ns == {e[1] : e \in new} IN new \cup {e \in old : e[1] \notin ns}
RawT == [k \in Quantities |-> {<<n, Base(k, n)>> : n \in RawNames(k)}]
Pow(T, k) == {<<e[1] \o "^" \o ToString(k), IF k = 2 THEN Mul(e[2], e[2]) ELSE Mul(e[2], Mul(e[2], e[2]))>> : e \in T}
Prod(S, T) == UNION {{<<a[1] \o "-" \o b[1], Mul(a[2], b[2])>>, <<b[1] \o "-" \o a[1], Mul(a[2], b[2])>>} : a \in S, b \in T}
Quot(S, T) == {<<a[1] \o "/" \o b[1], Div(a[2], b[2])>> : a \in S, b \in T}

Length == RawT["LENGTH"]
Time == RawT["TIME"]
Force == RawT["FORCE"]
Area == Over(Pow(Length, 2), RawT["AREA"])
Volume == Over(Pow(Length, 3), RawT["VOLUME"])
Energy == Over(Prod(Force, Length), RawT["ENERGY"])
Viscosity == Over(Prod(RawT["PRESSURE"], Time), RawT["VISCOSITY-DYNAMIC"])
Velocity == Over(Quot(Length, Time), RawT["VELOCITY"])
Frequency == Over(Quot(RawT["NON DIMENSIONAL"], Time), RawT["FREQUENCY"])
Flow == Over(Quot(Volume, Time), RawT["VOLUMETRIC FLOW"])
Power == Over(Quot(Energy, Time), RawT["POWER"])
Pressure == Over(Quot(Force, Area), RawT["PRESSURE"])
Spring == Quot(Force, Length)
Table == [k \in Quantities |->
    CASE k = "AREA" -> Area [] k = "VOLUME" -> Volume [] k = "ENERGY" -> Energy [] k = "VISCOSITY-DYNAMIC" -> Viscosity
      [] k = "VELOCITY" -> Velocity [] k = "FREQUENCY" -> Frequency [] k = "VOLUMETRIC FLOW" -> Flow [] k = "POWER" -> Power
      [] k = "PRESSURE" -> Pressure [] k = "SPRING FORCE" -> Spring [] OTHER -> RawT[k]]
Names == [k \in Quantities |-> {e[1] : e \in Table[k]}]
Size(k, n) == (CHOOSE e \in Table[k] : e[1] = n)[2]

(* Dimensions over <<length, mass, time>>: the rules compose the right quantities *)
Dim == [k \in {"LENGTH", "TIME", "FORCE", "AREA", "VOLUME", "ENERGY", "VISCOSITY-DYNAMIC", "VELOCITY", "FREQUENCY", "VOLUMETRIC FLOW",
               "POWER", "PRESSURE", "SPRING FORCE", "NON DIMENSIONAL"} |->
    CASE k = "LENGTH" -> <<1,0,0>> [] k = "TIME" -> <<0,0,1>> [] k = "FORCE" -> <<1,1,-2>> [] k = "AREA" -> <<2,0,0>> [] k = "VOLUME" -> <<3,0,0>>
      [] k = "ENERGY" -> <<2,1,-2>> [] k = "VISCOSITY-DYNAMIC" -> <<-1,1,-1>> [] k = "VELOCITY" -> <<1,0,-1>> [] k = "FREQUENCY" -> <<0,0,-1>>
      [] k = "VOLUMETRIC FLOW" -> <<3,0,-1>> [] k = "POWER" -> <<2,1,-3>> [] k = "PRESSURE" -> <<-1,1,-2>> [] k = "SPRING FORCE" -> <<0,1,-2>>
      [] k = "NON DIMENSIONAL" -> <<0,0,0>>]
DAdd(a, b) == [i \in 1..3 |-> a[i] + b[i]]
DSub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
ASSUME /\ Dim["AREA"] = DAdd(Dim["LENGTH"], Dim["LENGTH"]) /\ Dim["VOLUME"] = DAdd(Dim["AREA"], Dim["LENGTH"])
       /\ Dim["ENERGY"] = DAdd(Dim["FORCE"], Dim["LENGTH"]) /\ Dim["VISCOSITY-DYNAMIC"] = DAdd(Dim["PRESSURE"], Dim["TIME"])
       /\ Dim["VELOCITY"] = DSub(Dim["LENGTH"], Dim["TIME"]) /\ Dim["FREQUENCY"] = DSub(Dim["NON DIMENSIONAL"], Dim["TIME"])
       /\ Dim["VOLUMETRIC FLOW"] = DSub(Dim["VOLUME"], Dim["TIME"]) /\ Dim["POWER"] = DSub(Dim["ENERGY"], Dim["TIME"])
       /\ Dim["PRESSURE"] = DSub(Dim["FORCE"], Dim["AREA"]) /\ Dim["SPRING FORCE"] = DSub(Dim["FORCE"], Dim["LENGTH"])

-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
Init == q = "" /\ unit = "" /\ start = "" /\ factor = One /\ path = <<>>
(* "table": every unit of every quantity once, with its size                    *)
List == /\ Mode = "table" /\ q = ""
        /\ \E k \in Quantities : \E e \in Table[k] :
              /\ q' = k /\ unit' = e[1] /\ start' = e[1] /\ UNCHANGED <<factor, path>>
              /\ PrintT("@@" \o ToJson([q |-> k, unit |-> e[1], size |-> e[2]]))
(* "walk": a chain of conversions, one of which may be to a unit of another     *)
(* quantity or to no unit                                                       *)
Common(a, b) == {k \in Quantities : a \in Names[k] /\ b \in Names[k]}
Begin == /\ Mode = "walk" /\ q = ""
         /\ \E k \in {Pick(Quantities)} : \E n \in {Pick(IF Pick(1..3) = 1 /\ RawNames(k) # {} THEN RawNames(k) ELSE Names[k])} : q' = k /\ unit' = n /\ start' = n
         /\ UNCHANGED <<factor, path>>
Convert(b) == /\ unit' = b
              /\ factor' = Mul(factor, Div(Size(q, unit), Size(q, b)))
              /\ path' = Append(path, [a |-> unit, b |-> b, size |-> Div(Size(q, unit), Size(q, b)), in |-> Cardinality(Common(unit, b))])
              /\ UNCHANGED <<q, start>>
Refuse(b) == /\ Common(unit, b) = {}
             /\ path' = Append(path, [a |-> unit, b |-> b, size |-> One, in |-> 0])
             /\ UNCHANGED <<q, unit, start, factor>>
Walk == /\ Mode = "walk" /\ q # "" /\ Len(path) < MaxSteps
        /\ \E w \in {Pick(1..6)} :
             IF w = 1 THEN \E k \in {Pick(Quantities \cup {"?"})} : \E n \in {IF k = "?" THEN unit \o Pick({"s", "^4", "/", "x"}) ELSE Pick(Names[k])} :
                              IF Common(unit, n) = {} THEN Refuse(n) ELSE Convert(unit)
             ELSE IF w = 2 THEN Convert(start)
             ELSE \E n \in {Pick(Names[q])} : Convert(n)
Done == /\ Mode = "walk" /\ Len(path) = MaxSteps /\ factor # <<"done">>
        /\ PrintT("@@" \o ToJson([q |-> q, path |-> path]))
        /\ factor' = <<"done">> /\ UNCHANGED <<q, unit, start, path>>
Next == List \/ Begin \/ Walk \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* an amount keeps its size; converted back it has its first value
Conserved == (Mode = "walk" /\ q # "" /\ factor # <<"done">>) => Mul(factor, Size(q, unit)) = Size(q, start)
Back == (Mode = "walk" /\ q # "" /\ factor # <<"done">> /\ unit = start) => factor = One
=============================================================================
