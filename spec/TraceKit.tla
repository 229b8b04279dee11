------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common part of the trace specifications: a list of recorded runs is read *)
(* from the file named by TRACES; each is replayed from its first event; a   *)
(* run whose last event is not reached by any behaviour is reported.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Tr == Traces[tid]
Ev == Tr.ev
Done == l > Len(Ev)
E == Ev[l]
KitInit == tid \in 1 .. Len(Traces) /\ l = 1
Is(e) == ~Done /\ E.e = e /\ UNCHANGED tid
Step == l' = l + 1
Ended == Is("end") /\ E.op = "ok" /\ Step
Mark == (l > TLCGet(tid)) => TLCSet(tid, l)
TraceConstraint == Mark
ASSUME Registers == \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1 .. Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
TraceAccepted == LET R == Rejected IN
   \/ R = {}
   \/ PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in R}>>) /\ FALSE
=============================================================================
