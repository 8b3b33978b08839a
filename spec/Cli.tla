--------------------------------- MODULE Cli ---------------------------------
(* The command-line programs nxc and neapolitan run in a directory (C20).      *)
(* The state is the content of the directory: name -> kind of content. A run   *)
(* reads its first argument and scans the others; it ends with a status and    *)
(* may add or replace one file, named after the input.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRuns

VARIABLES fs, hist, fin
vars == <<fs, hist, fin>>

Pick(S) == RandomElement(S)

\* -------------------------------------------------------------- the names
\* (stem, extension) pairs; the output replaces the extension that the program
\* knows by its own, other names keep theirs
NxNames == {<<"p", ".nxs">>, <<"p", "">>, <<"p", ".txt">>, <<"q r", ".nxs">>, <<"sub/m", ".nxs">>, <<"p.nxs", ".nxs">>, <<"", ".nxs">>,
            <<"p.nxs", ".bak">>, <<"p", ".NXS">>, <<"p.txt", ".nxs">>, <<"nxs", "">>}
NeNames == {<<"c", ".json">>, <<"c", "">>, <<"c.soln", ".json">>, <<"sub/c", ".json">>, <<"c.json", ".json">>, <<"c d", ".json">>,
            <<"", ".json">>, <<"c.json", ".txt">>, <<"json", "">>}
File(n) == n[1] \o n[2]
Output(prog, n) == IF prog = "nxc" THEN (IF n[2] = ".nxs" THEN n[1] ELSE File(n)) \o ".txt"
                   ELSE (IF n[2] = ".json" THEN n[1] ELSE File(n)) \o ".soln.json"
NxKinds == {"lin", "cube", "root", "noroot", "syntax", "partial", "binary", "empty", "unit"}
NeKinds == {"circuit", "heat", "nosolution", "badjson", "badtype", "badnode", "binary", "nothing"}
KindOf(f) == IF f \in DOMAIN fs THEN fs[f] ELSE "missing"

\* ------------------------------------------------------------ the options
\* class of the values: good, tiny and negative margins; enough, one, no steps
MarginVals == {<<"0.0001", "good">>, <<"1e-6", "good">>, <<"0.00000001", "good">>, <<"1e-300", "tiny">>, <<"-1", "negative">>, <<"-0.001", "negative">>,
               <<"abc", "bad">>, <<"", "bad">>, <<"1,5", "bad">>, <<"-o", "bad">>, <<"--verbose", "bad">>, <<"0x1", "bad">>, <<"1e-3e", "bad">>}
LimitVals == {<<"100", "enough">>, <<"1000", "enough">>, <<"1", "one">>, <<"0", "none">>, <<"-5", "bad">>, <<"2.5", "bad">>, <<"abc", "bad">>,
              <<"", "bad">>, <<"99999999999999999999999", "bad">>, <<"-v", "bad">>, <<"1e3", "bad">>}
Flags(prog, o) == CASE prog = "nxc" /\ o = "margin" -> {"--margin", "-tol"}
                    [] prog = "nxc" /\ o = "limit" -> {"--max-iterations", "-max"}
                    [] prog = "nxc" /\ o = "verbose" -> {"--verbose", "-v"}
                    [] prog = "nxc" /\ o = "file" -> {"--output-file", "--to-file", "-o"}
                    [] prog = "neapolitan" /\ o = "margin" -> {"--precision", "-p"}
                    [] OTHER -> {"--iterations", "-i"}
Options(prog) == IF prog = "nxc" THEN {"margin", "limit", "verbose", "file"} ELSE {"margin", "limit"}
Opt(prog) == LET o == Pick(Options(prog))
                 v == IF o = "margin" THEN (IF Pick(1..3) = 1 THEN Pick(MarginVals) ELSE Pick({w \in MarginVals : w[2] # "bad"}))
                      ELSE IF o = "limit" THEN (IF Pick(1..3) = 1 THEN Pick(LimitVals) ELSE Pick({w \in LimitVals : w[2] # "bad"}))
                      ELSE <<"", "">>
             IN [o |-> o, flag |-> Pick(Flags(prog, o)), val |-> v[1], class |-> v[2], has |-> o \in {"margin", "limit"}]
Has(opts, o) == \E k \in DOMAIN opts : opts[k].o = o
\* the last one given counts
Last(opts, o, default) == IF Has(opts, o)
                          THEN opts[CHOOSE k \in DOMAIN opts : opts[k].o = o /\ \A j \in DOMAIN opts : opts[j].o = o => j <= k].class
                          ELSE default

\* ---------------------------------------------------------- what comes out
\* "yes", "no" or "free" (the statement of the property leaves it open)
Solved(kind, margin, limit) ==
    IF kind \in {"noroot", "syntax", "binary", "missing", "dir", "nosolution", "badjson", "badtype", "badnode", "nothing"} THEN "no"
    ELSE IF kind = "solution" THEN "free"
    ELSE IF kind = "empty" THEN "free"
    ELSE IF kind = "partial" THEN (IF margin \in {"good", "default"} /\ limit = "enough" THEN "yes" ELSE "free")
    ELSE IF margin = "negative" THEN "no"
    ELSE IF limit = "none" THEN "no"
    ELSE IF limit = "one" THEN (IF kind \in {"cube", "root"} THEN "no" ELSE "free")
    ELSE IF margin = "tiny" THEN (IF kind = "root" THEN "no" ELSE "free")
    ELSE "yes"
Expect(prog, f, opts, cut) ==
    IF cut \/ \E k \in DOMAIN opts : opts[k].class = "bad" THEN "no"
    ELSE Solved(KindOf(f), Last(opts, "margin", "good"), Last(opts, "limit", "enough"))

\* -------------------------------------------------------------------- runs
Log(r) == hist' = TLCEval(Append(hist, r))
Write(prog) == \E n \in {Pick(IF prog = "nxc" THEN NxNames ELSE NeNames)} :
               \E k \in {IF Pick(1..2) = 1 THEN Pick(IF prog = "nxc" THEN {"lin", "cube", "root", "unit"} ELSE {"circuit", "heat"})
                         ELSE Pick(IF prog = "nxc" THEN NxKinds ELSE NeKinds)} :
               IF KindOf(File(n)) = "dir" THEN UNCHANGED vars
               ELSE /\ fs' = TLCEval((File(n) :> k) @@ fs)
                    /\ Log([op |-> "write", file |-> File(n), kind |-> k])
                    /\ UNCHANGED fin
\* a directory where the output of an input would go
Block(prog) == \E n \in {Pick(IF prog = "nxc" THEN NxNames ELSE NeNames)} :
               IF Output(prog, n) \in DOMAIN fs \/ Output(prog, n) \in {File(x) : x \in NxNames \cup NeNames} THEN UNCHANGED vars
               ELSE /\ fs' = TLCEval((Output(prog, n) :> "dir") @@ fs)
                    /\ Log([op |-> "mkdir", file |-> Output(prog, n)])
                    /\ UNCHANGED fin
Run(prog) ==
    LET all == IF prog = "nxc" THEN NxNames ELSE NeNames
        here == {n \in all : File(n) \in DOMAIN fs}
    IN \E n \in {IF here = {} \/ Pick(1..12) = 1 THEN Pick(all) ELSE Pick(here)} :
       \E k \in {Pick(0..4)} :
       \E opts \in {TLCEval([j \in 1..k |-> Opt(prog)])} :
       \* the last option may lack its value
       \E cut \in {k > 0 /\ opts[k].has /\ Pick(1..10) = 1} :
       LET f == File(n)
           toFile == prog = "neapolitan" \/ Has(opts, "file")
           out == Output(prog, n)
           blocked == toFile /\ KindOf(out) = "dir"
           e0 == Expect(prog, f, opts, cut)
           e == IF blocked THEN (IF e0 = "yes" THEN "no" ELSE e0) ELSE e0
       IN /\ Log([op |-> "run", prog |-> prog, file |-> f, kind |-> KindOf(f), opts |-> opts, cut |-> cut, expect |-> e,
                  out |-> IF toFile THEN out ELSE "", margin |-> IF Has(opts, "margin") THEN Last(opts, "margin", "good") ELSE "default"])
          \* whatever is left open is not followed up: the run gets fresh files
          /\ fs' = IF toFile /\ e = "yes" THEN TLCEval((out :> "solution") @@ fs) ELSE fs
          /\ fin' = (e = "free" /\ toFile)
Usage == \E a \in {Pick({"", "help", "-h"})} : Log([op |-> "usage", arg |-> a]) /\ UNCHANGED <<fs, fin>>
NoArg == Log([op |-> "noarg"]) /\ UNCHANGED <<fs, fin>>

Init == fs = <<>> /\ hist = <<>> /\ fin = FALSE
Step == \E prog \in {Pick({"nxc", "neapolitan"})} : \E x \in {Pick(1..30)} :
        IF DOMAIN fs = {} \/ x <= 11 THEN Write(prog)
        ELSE IF x = 12 THEN Usage ELSE IF x = 13 THEN NoArg
        ELSE IF x = 14 THEN Block(prog)
        ELSE Run(prog)
Over == fin \/ Len(hist) >= MaxRuns
Next == IF Over THEN PrintT("@@" \o ToJson([hist |-> hist, fs |-> fs])) /\ hist' = <<>> /\ fs' = <<>> /\ fin' = FALSE ELSE Step
Spec == Init /\ [][Next]_vars

\* no run writes to the file it reads
Apart == \A n \in NxNames : Output("nxc", n) # File(n)
ApartNe == \A n \in NeNames : Output("neapolitan", n) # File(n)
Safe == Apart /\ ApartNe
=============================================================================
