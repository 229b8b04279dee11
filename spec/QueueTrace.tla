----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Validates recorded call/return histories of the real queue against      *)
(* Queue.  Moves of elements are not recorded: TLC finds an order of       *)
(* atomic moves that explains the history, or none exists (rejection).     *)
(* Several histories are validated in one run; the one at index k is       *)
(* accepted when register k is set.                                        *)
(***************************************************************************)
EXTENDS Queue, TLC, Json, IOUtils, Integers

Traces == JsonDeserialize(IOEnv.TRACES)
(* C01 judges the elements that calls return; C02 judges only, from the number *)
(* of elements moved, whether calls that stay blocked rightly do so.          *)
Values == IOEnv.CLAUSES # "C02"
CheckBlocked == IOEnv.CLAUSES # "C01"

VARIABLES tid, l
tvars == <<cap, q, op, tid, l>>

Ev == Traces[tid].ev
Done == l > Len(Ev)

TraceInit == /\ tid \in 1 .. Len(Traces) /\ l = 1
             /\ QueueInit(Traces[tid].cap, 1 .. Traces[tid].nt)

Is(e) == ~Done /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED tid

TCall == Is("call") /\ Call(Ev[l].t, Ev[l].op, Ev[l].v, Ev[l].n)
TRet  == Is("ret") /\ Ev[l].n = Len(Ev[l].v) /\ Len(op[Ev[l].t].got) = Ev[l].n
         /\ Return(Ev[l].t, IF Values THEN Ev[l].v ELSE op[Ev[l].t].got)
TSize == /\ Is("size")
         /\ Values => Ev[l].n = Len(q) /\ (Ev[l].op = "y") = (q = <<>>) /\ Ev[l].v = <<cap>>
         /\ UNCHANGED qvars
TEnd  == /\ Is("end")
         /\ \/ Ev[l].op = "finished"
            \/ ~CheckBlocked /\ Ev[l].op = "hang"
            \/ ~Values /\ Ev[l].op = "crash"
            \/ /\ Ev[l].op = "blocked"
               /\ CheckBlocked => \A t \in DOMAIN op : op[t].k = "idle" \/ Stuck(t)
         /\ UNCHANGED qvars
Hidden == /\ ~Done /\ UNCHANGED <<tid, l>>
          /\ \E t \in DOMAIN op : PutOne(t) \/ TakeOne(t) \/ TryMiss(t)

TraceNext == TCall \/ TRet \/ TSize \/ TEnd \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Mark == /\ (l > TLCGet(tid)) => TLCSet(tid, l)
TraceConstraint == Mark
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1 .. Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
TraceAccepted == LET R == Rejected IN
   \/ R = {}
   \/ PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in R}>>) /\ FALSE
=============================================================================
