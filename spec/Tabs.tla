--------------------------------- MODULE Tabs ---------------------------------
(* The window of the user interface (C23): the list of files and the panel     *)
(* beside it, the bar of open files, and the message line. Names are symbolic   *)
(* (the check gives them texts, among them the names of the program's own       *)
(* parts).                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxFiles, MaxOps

VARIABLES files, tabs, panel, marked, ribbon, hist
vars == <<files, tabs, panel, marked, ribbon, hist>>
(* files: names listed; tabs: names of the open files; panel: what the left     *)
(* side shows; marked: the panel whose tab is highlighted ("": none yet);       *)
(* ribbon: [kind, text] of the last message (text ? : any words)                *)

Pick(S) == RandomElement(S)
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Kinds == {"print", "warn", "error"}
Texts == {"m1", "m2", "m3"}
None == [kind |-> "none", text |-> ""]

Start == /\ files = <<>> /\ tabs = <<>> /\ panel = "files" /\ marked = "" /\ ribbon = None
Init == Start /\ hist = <<>>
Log(op, fs, ts, p, m, r) ==
    hist' = Append(hist, [op |-> op, files |-> IF p = "files" THEN fs ELSE <<>>, tabs |-> ts, panel |-> p, marked |-> m, ribbon |-> r])
Go(op, fs, ts, p, m, r) == /\ files' = fs /\ tabs' = ts /\ panel' = p /\ marked' = m /\ ribbon' = r /\ Log(op, fs, ts, p, m, r)

\* files are listed while the list is shown
File(n) == panel = "files" /\ Len(files) < MaxFiles /\ Go([op |-> "file", name |-> n], Append(files, n), tabs, panel, marked, ribbon)
Open(i) == /\ panel = "files"
           /\ Go([op |-> "open", i |-> i], files, IF Has(tabs, files[i]) THEN tabs ELSE Append(tabs, files[i]), panel, marked, ribbon)
Close(i) == Go([op |-> "close", i |-> i], files, Drop(tabs, i), panel, marked, ribbon)
Focus(i) == Go([op |-> "focus", i |-> i], files, tabs, panel, marked, ribbon)
Panel(p) == Go([op |-> "panel", name |-> p], files, tabs, p, p, [kind |-> "print", text |-> "?"])
Say(k, t) == Go([op |-> "say", kind |-> k, name |-> t], files, tabs, panel, marked, [kind |-> k, text |-> t])

Step == \E x \in {Pick(1..20)} :
        IF x <= 4 \/ (x <= 12 /\ panel = "files" /\ files = <<>>)
        THEN IF panel = "files" /\ Len(files) < MaxFiles THEN \E n \in {Pick(Names)} : File(n) ELSE Panel("files")
        ELSE IF x <= 9 THEN IF panel = "files" THEN \E i \in {Pick(DOMAIN files)} : Open(i) ELSE \E p \in {Pick({"files", "model"})} : Panel(p)
        ELSE IF x <= 13 THEN IF tabs # <<>> THEN \E i \in {Pick(DOMAIN tabs)} : Close(i) ELSE \E p \in {Pick({"files", "model"})} : Panel(p)
        ELSE IF x <= 14 THEN IF tabs # <<>> THEN \E i \in {Pick(DOMAIN tabs)} : Focus(i) ELSE Panel("files")
        ELSE IF x <= 18 THEN \E p \in {Pick({"files", "model"})} : Panel(p)
        ELSE \E k \in {Pick(Kinds)}, t \in {Pick(Texts)} : Say(k, t)
Restart == /\ PrintT("@@" \o ToJson([hist |-> hist]))
           /\ files' = <<>> /\ tabs' = <<>> /\ panel' = "files" /\ marked' = "" /\ ribbon' = None /\ hist' = <<>>
Next == IF Len(hist) >= MaxOps THEN Restart ELSE Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Small windows are enumerated: one behaviour per transition.                  *)
Small == /\ Len(hist) < MaxOps
         /\ \/ Len(files) < 2 /\ \E n \in Names : File(n)
            \/ \E i \in DOMAIN files : Open(i)
            \/ \E i \in DOMAIN tabs : Close(i) \/ Focus(i)
            \/ \E p \in {"files", "model"} : Panel(p)
            \/ \E k \in Kinds : Say(k, "m1")
Each == Small /\ PrintT("@@" \o ToJson([hist |-> hist']))
SmallSpec == Init /\ [][Each]_vars
View == <<files, tabs, panel, marked, ribbon>>

\* a file is open at most once, and only files that were listed are open
OnceOpen == \A i, j \in DOMAIN tabs : tabs[i] = tabs[j] => i = j
Listed == \A i \in DOMAIN tabs : Has(files, tabs[i])
Shown == marked \in {"", panel}
=============================================================================
