-------------------------------- MODULE Expr --------------------------------
(* The expression language of geqslib (C01, C02).                             *)
(*                                                                            *)
(*  - Parse (module Grammar): the language and its meaning. A token sequence  *)
(*    is well formed iff Parse gives a postfix program, the meaning of which  *)
(*    is the conventional value of the expression.                            *)
(*  - The state machine: the operator-precedence ("shunting yard") parser the *)
(*    implementation uses, one action per token, with its stack, its output   *)
(*    queue, the operand/operator expectation and the open calls.             *)
(*  - AgreeWithGrammar: in every state the machine accepts what it has read   *)
(*    iff the grammar does, with the same postfix program.                    *)
(*                                                                            *)
(* Every state is a token sequence with a verdict; Emit prints it, and the    *)
(* conformance check spells it in many ways and evaluates it with the code.   *)
EXTENDS Grammar, FiniteSets, TLC, Json

CONSTANTS MaxLen,       \* longest token sequence explored
          Alphabet,     \* token classes that are explored
          Deep          \* TRUE: random generation of long sequences (simulation)

VARIABLES toks, stack, queue, operand, calls, err, done

vars == <<toks, stack, queue, operand, calls, err, done>>

-----------------------------------------------------------------------------
(* The machine. Stack items are <<word, position>>; "neg" is a unary minus.   *)

Prec(op) == CASE op = "^" -> 4 [] op \in {"*", "/", "neg"} -> 3 [] op \in {"+", "-"} -> 2 [] OTHER -> 1

Top(s)  == s[Len(s)]
Rest(s) == SubSeq(s, 1, Len(s) - 1)

\* Does the stacked operator o2 go to the output before o1 is stacked?
Yields(o1, o2) == o2 # "(" /\ (Prec(o2) > Prec(o1) \/ (Prec(o2) = Prec(o1) /\ o1 # "^"))

RECURSIVE PopWhile(_, _, _)
PopWhile(o1, s, q) ==
    IF s # <<>> /\ Yields(o1, Top(s)[1]) THEN PopWhile(o1, Rest(s), Append(q, Top(s))) ELSE <<s, q>>
RECURSIVE PopToParen(_, _)
PopToParen(s, q) ==
    IF s # <<>> /\ Top(s)[1] # "(" THEN PopToParen(Rest(s), Append(q, Top(s))) ELSE <<s, q>>
RECURSIVE PopAll(_, _)
PopAll(s, q) == IF s = <<>> THEN q ELSE PopAll(Rest(s), Append(q, Top(s)))

AfterFunction == stack # <<>> /\ Top(stack)[1] \in Functions

\* May the machine read c now? (A wrong arity shows when the call is closed)
Placed(c) ==
    /\ AfterFunction => c = "("
    /\ CASE c \in {"+", "*", "/", "^"} -> ~operand
         [] c = ","  -> ~operand /\ calls # <<>> /\ Top(calls)[1] > 0
         [] c = ")"  -> ~operand /\ calls # <<>> /\ (Top(calls)[1] > 0 => Top(calls)[1] = Top(calls)[2] + 1)
         [] c = "-"  -> TRUE
         [] c = "u"  -> FALSE
         [] OTHER    -> operand

p1 == Len(toks) + 1
Item(c) == <<c, p1>>

ReadOperand(c) ==
    /\ c \in Operands
    /\ queue' = Append(queue, Item(c)) /\ operand' = FALSE
    /\ UNCHANGED <<stack, calls>>
ReadFunction(c) ==
    /\ c \in Functions
    /\ stack' = Append(stack, Item(c)) /\ operand' = TRUE
    /\ UNCHANGED <<queue, calls>>
ReadOpen ==
    /\ calls' = Append(calls, IF AfterFunction THEN <<Arity[Top(stack)[1]], 0>> ELSE <<0, 0>>)
    /\ stack' = Append(stack, Item("(")) /\ operand' = TRUE
    /\ UNCHANGED queue
ReadComma ==
    LET r == PopToParen(stack, queue)
    IN /\ stack' = r[1] /\ queue' = r[2] /\ operand' = TRUE
       /\ calls' = [calls EXCEPT ![Len(calls)][2] = @ + 1]
ReadClose ==
    LET r == PopToParen(stack, queue)
        s == Rest(r[1])
        isCall == Top(calls)[1] > 0
    IN /\ stack' = IF isCall THEN Rest(s) ELSE s
       /\ queue' = IF isCall THEN Append(r[2], Top(s)) ELSE r[2]
       /\ calls' = Rest(calls) /\ operand' = FALSE
ReadNeg ==
    /\ operand
    /\ stack' = Append(stack, Item("neg"))
    /\ UNCHANGED <<queue, calls, operand>>
ReadBin(c) ==
    /\ c \in BinOps /\ ~operand
    /\ LET r == PopWhile(c, stack, queue)
       IN stack' = Append(r[1], Item(c)) /\ queue' = r[2]
    /\ operand' = TRUE /\ UNCHANGED calls

Read(c) ==
    /\ toks' = Append(toks, c)
    /\ err' = ~Placed(c)
    /\ IF Placed(c)
       THEN CASE c \in Operands  -> ReadOperand(c)
              [] c \in Functions -> ReadFunction(c)
              [] c = "("         -> ReadOpen
              [] c = ","         -> ReadComma
              [] c = ")"         -> ReadClose
              [] c = "-" /\ operand -> ReadNeg
              [] OTHER           -> ReadBin(c)
       ELSE UNCHANGED <<stack, queue, operand, calls>>

Accepts == ~err /\ ~operand /\ calls = <<>>
Output  == PopAll(stack, queue)

Init == toks = <<>> /\ stack = <<>> /\ queue = <<>> /\ operand = TRUE /\ calls = <<>> /\ err = FALSE /\ done = FALSE

Next == ~err /\ Len(toks) < MaxLen /\ done' = FALSE /\ \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AgreeWithGrammar ==
    done \/ LET g == Parse(toks) IN Accepts = g[1] /\ (Accepts => Output = g[2])

\* An operator stack that grows strictly in precedence between parentheses is what
\* makes popping yield the right association
StackShape ==
    \A i \in 1..(Len(stack) - 1) :
        LET a == stack[i][1]  b == stack[i + 1][1]
        IN a \in BinOps /\ b \in BinOps /\ b # "^" => Prec(a) < Prec(b)

NoJunk == err \/ Cardinality({i \in 1..Len(stack) : stack[i][1] = "("}) = Len(calls)

-----------------------------------------------------------------------------
Verdict(t) == LET g == Parse(t)
              IN [toks |-> t, ok |-> g[1], prog |-> g[2], val |-> IF g[1] THEN Value(g[2]) ELSE Undef]
Emit == PrintT("@@" \o ToJson(Verdict(toks)))
\* only the accepted ones, and no further reading of what is rejected
EmitGood == ~err /\ (Accepts => Emit)

-----------------------------------------------------------------------------
(* Random long sequences, for simulation: grow a viable prefix; near MaxLen   *)
(* prefer what closes it; when complete, emit it and some mutants of it.      *)
Viable == {c \in Alphabet \ {"u"} : Placed(c)}
\* In the last part of the walk only close what is open
Closing == {c \in Viable : c \in {"n", "v", "k", ")"} \/ (c = "(" /\ AfterFunction)
                           \/ (c = "," /\ Top(calls)[1] > Top(calls)[2] + 1)}
Pick(S) == RandomElement(S)

DropAt(t, i)     == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
PutAt(t, i, c)   == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
SetAt(t, i, c)   == [t EXCEPT ![i] = c]
SwapAt(t, i, j)  == [t EXCEPT ![i] = t[j], ![j] = t[i]]
Mutant(t) ==
    LET i == Pick(1..Len(t))  j == Pick(1..Len(t))  c == Pick(Alphabet)  m == Pick(1..4)
    IN CASE m = 1 -> DropAt(t, i) [] m = 2 -> PutAt(t, i, c) [] m = 3 -> SetAt(t, i, c) [] OTHER -> SwapAt(t, i, j)

DeepNext ==
    /\ ~done
    /\ IF Accepts /\ (Len(toks) >= MaxLen \/ (Len(toks) > 8 /\ Pick(1..12) = 1))
       THEN /\ done' = TRUE
            /\ Emit
            /\ \A k \in 1..3 : PrintT("@@" \o ToJson(Verdict(Mutant(toks))))
            /\ UNCHANGED <<toks, stack, queue, operand, calls, err>>
       ELSE /\ done' = FALSE
            /\ LET S == IF Len(toks) >= MaxLen /\ Closing # {} THEN Closing ELSE Viable
                   \* operators that end an operand are rarer than what follows them
                   c == Pick(S)
               IN Read(c)
DeepSpec == Init /\ [][DeepNext]_vars
=============================================================================
