-------------------------------- MODULE Lexer --------------------------------
(* Texts as characters (C01, C02): what is a number, a name, an operator, and *)
(* where one word ends and the next begins. The machine reads one character   *)
(* at a time; Split says declaratively what the words of a text are. Together *)
(* with Grammar this decides for every text over the alphabet whether it is   *)
(* an expression, and which.                                                  *)
EXTENDS Grammar, FiniteSets, TLC, Json

CONSTANTS MaxLen, Alphabet

VARIABLES text,     \* the characters read
          mode,     \* what the current word can be
          word,     \* its characters
          words     \* the finished words: [kind, text, val]
vars == <<text, mode, word, words>>

Digits  == {"0", "1", "2"}
Letters == {"e", "x", "i", "n", "f"}
Opers   == {"+", "-", "*", "/", "^", "(", ")", ","}
DVal    == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] OTHER -> 2]

\* What a word is after one more character.
\*  int: digits   dot: one dot and no digit   frac: digits and one dot
\*  name: a letter, then letters, digits, underscores
\*  exp: a number and an e   sci: that and digits   bad: nothing any more
Step(m, c) ==
    CASE m = ""     -> (CASE c \in Digits -> "int" [] c = "." -> "dot" [] c \in Letters -> "name" [] OTHER -> "bad")
      [] m = "int"  -> (CASE c \in Digits -> "int" [] c = "." -> "frac" [] c = "e" -> "exp" [] OTHER -> "bad")
      [] m = "dot"  -> (IF c \in Digits THEN "frac" ELSE "bad")
      [] m = "frac" -> (CASE c \in Digits -> "frac" [] c = "e" -> "exp" [] OTHER -> "bad")
      [] m = "name" -> (IF c \in Digits \cup Letters \cup {"_"} THEN "name" ELSE "bad")
      [] m \in {"exp", "sci"} -> (IF c \in Digits THEN "sci" ELSE "bad")
      [] OTHER      -> "bad"

RECURSIVE Cat(_)
Cat(w) == IF w = <<>> THEN "" ELSE w[1] \o Cat(Tail(w))

\* the value of a number: the digits, divided by 10 for each after the dot
RECURSIVE NumOf(_, _, _, _)
NumOf(w, n, d, seen) ==
    IF w = <<>> THEN <<n, d>>
    ELSE IF w[1] = "." THEN NumOf(Tail(w), n, d, TRUE)
    ELSE NumOf(Tail(w), 10 * n + DVal[w[1]], IF seen THEN 10 * d ELSE d, seen)

Kind(m, w) ==
    CASE m \in {"int", "frac"} -> "n"
      [] m = "sci"             -> "s"     \* 1e5: number or not, it is not said
      [] m = "name" /\ w = <<"e">> -> "k"
      [] m = "name" /\ w = <<"x">> -> "v"
      [] m = "name" /\ w \in {<<"i", "n", "f">>, <<"n", "i", "n", "f">>} -> "s"   \* neither
      [] OTHER                 -> "u"
Finished == IF word = <<>> THEN words
            ELSE Append(words, [kind |-> Kind(mode, word), text |-> Cat(word),
                                val |-> IF mode \in {"int", "frac"} THEN NumOf(word, 0, 1, FALSE) ELSE <<0, 0>>])

Read(c) ==
    /\ text' = Append(text, c)
    /\ IF c = " " \/ c \in Opers
       THEN /\ mode' = "" /\ word' = <<>>
            /\ words' = IF c = " " THEN Finished ELSE Append(Finished, [kind |-> c, text |-> c, val |-> <<0, 0>>])
       ELSE /\ mode' = Step(mode, c) /\ word' = Append(word, c) /\ words' = words

Init == text = <<>> /\ mode = "" /\ word = <<>> /\ words = <<>>
Next == Len(text) < MaxLen /\ \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The words of a text, without the machine
IsWordChar(c) == c # " " /\ c \notin Opers
Starts == {i \in 1..Len(text) : /\ text[i] # " "
                                /\ (i = 1 \/ ~IsWordChar(text[i]) \/ ~IsWordChar(text[i - 1]))}
EndOf(i) == IF ~IsWordChar(text[i]) THEN i
            ELSE CHOOSE j \in i..Len(text) : /\ \A k \in i..j : IsWordChar(text[k])
                                             /\ (j = Len(text) \/ ~IsWordChar(text[j + 1]))
RECURSIVE SplitFrom(_)
SplitFrom(S) == IF S = {} THEN <<>>
                ELSE LET i == CHOOSE k \in S : \A l \in S : k <= l
                     IN <<SubSeq(text, i, EndOf(i))>> \o SplitFrom(S \ {i})
Split == SplitFrom(Starts)

\* A number by its parts: at least one digit, at most one dot, nothing else
IsNumber(w) == /\ \A i \in 1..Len(w) : w[i] \in Digits \cup {"."}
               /\ Cardinality({i \in 1..Len(w) : w[i] = "."}) <= 1
               /\ \E i \in 1..Len(w) : w[i] \in Digits
IsName(w) == w[1] \in Letters /\ \A i \in 1..Len(w) : w[i] \in Digits \cup Letters \cup {"_"}

SameWords == LET F == Finished
             IN /\ Len(F) = Len(Split)
                /\ \A i \in 1..Len(F) : /\ F[i].text = Cat(Split[i])
                                        /\ (F[i].kind = "n") = IsNumber(Split[i])
                                        /\ (F[i].kind \in {"k", "v"} => IsName(Split[i]))

-----------------------------------------------------------------------------
Toks == [i \in 1..Len(Finished) |-> Finished[i].kind]
Verdict ==
    LET F == Finished
        T == [i \in 1..Len(F) |-> F[i].kind]
        g == Parse(T)
        unsaid == \E i \in 1..Len(T) : T[i] = "s"
    IN [src |-> Cat(text), said |-> ~unsaid, ok |-> g[1], prog |-> g[2],
        vals |-> [i \in 1..Len(F) |-> F[i].val]]
Emit == PrintT("@@" \o ToJson(Verdict))
=============================================================================
