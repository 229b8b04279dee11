------------------------------ MODULE PullTrace -------------------------------
(***************************************************************************)
(* What one iterator delivers while others are in use: the records of its    *)
(* own sources, each pass in order, then end of data; nothing of the others. *)
(*   Tr.srcs  the sources in the order they are added: recs and pass         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TraceKit
VARIABLES added, due
tvars == <<tid, l, added, due>>
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
TraceInit == KitInit /\ added = 0 /\ due = <<>>
TSource == /\ Is("source") /\ Step /\ E.st = 0
           /\ added' = added + 1 /\ due' = due \o Times(Tr.srcs[added + 1].recs, Tr.srcs[added + 1].pass)
TPull == /\ Is("pull") /\ Step /\ UNCHANGED added
         /\ IF E.end THEN due = <<>> /\ UNCHANGED due
            ELSE /\ Len(E.recs) <= Tr.bs /\ Len(E.recs) <= Len(due)
                 /\ E.recs = SubSeq(due, 1, Len(E.recs))
                 /\ due' = SubSeq(due, Len(E.recs) + 1, Len(due))
TEnd == Ended /\ UNCHANGED <<added, due>>
TraceNext == TSource \/ TPull \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
