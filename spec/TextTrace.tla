----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Reading text files with the real readers, validated line by line.        *)
(* A trace: fmt, lines (data lines; a CSV header is in hdr), ev: what the    *)
(* reader did until its first refusal or the end of the last pass.           *)
(***************************************************************************)
EXTENDS Text, TraceKit
VARIABLE ln
tvars == <<tid, l, ln>>
TraceInit == KitInit /\ ln = 1
Skip == l' = Len(Ev) + 1      \* after an undefined line anything but a crash or hang goes
Alive == \A k \in l .. Len(Ev) : Ev[k].e = "end" => Ev[k].op = "ok"
N == Len(Tr.lines)
Verdict == ParseLine(Tr.fmt, Tr.lines[ln])
(* a CSV source without header line cannot be opened *)
TOpen == Is("open") /\ Step /\ UNCHANGED ln /\ (E.st = 0) = (Tr.fmt = "svm" \/ Tr.hdr)
TRec == /\ Is("rec") /\ E.st = 0 /\ ln <= N
        /\ \E r \in {Verdict} :
           \/ r.v = "ok" /\ Match(Tr.fmt, r, E) /\ Step /\ ln' = ln + 1
           \/ r.v = "grey" /\ Alive /\ Skip /\ UNCHANGED ln
TBad == /\ Is("rec") /\ E.st \notin {0, 3} /\ ln <= N
        /\ \E r \in {Verdict} :
           \/ r.v = "bad" /\ E.st = 5 /\ Step /\ UNCHANGED ln
           \/ r.v = "grey" /\ Alive /\ Skip /\ UNCHANGED ln
TEof == Is("rec") /\ E.st = 3 /\ ln = N + 1 /\ Step /\ UNCHANGED ln
TRewind == Is("rewind") /\ ln' = 1 /\ Step
TEnd == Ended /\ UNCHANGED ln
TraceNext == TOpen \/ TRec \/ TBad \/ TEof \/ TRewind \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
