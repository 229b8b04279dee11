----------------------------- MODULE PipeTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real iterator against Pipe.  The trace    *)
(* fixes every step; each property enforces its own clauses:                *)
(*   deliver (C03, C05, C06): what the consumer receives, and that pulls    *)
(*   return;  own (C04): who may write which slot, and read-ahead;          *)
(*   destroy (C07): the destructor.                                         *)
(***************************************************************************)
EXTENDS Pipe, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Clause == IOEnv.CLAUSES
Deliver == Clause \in {"C03", "C05", "C06"}
Own == Clause = "C04"
Destr == Clause = "C07"

VARIABLES tid, l,
          doing,     \* what the consumer is in: "idle", "pull", "destroy"
          copy       \* contents of held batches as delivered: first slot -> records
tvars == <<pipeVars, tid, l, doing, copy>>
Tr == Traces[tid]
Ev == Tr.ev
Done == l > Len(Ev)
Set(q) == {q[i] : i \in DOMAIN q}

TraceInit == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ doing = "idle" /\ copy = <<>>
             /\ PipeInit(Traces[tid].bs, Traces[tid].bn)
Is(e) == ~Done /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED tid

TAdd == /\ Is("add") /\ UNCHANGED <<doing, copy>>
        /\ LET s == Tr.src[Ev[l].id] ok == Ev[l].ok = 1 IN
           /\ Deliver => AddOK(s, ok) /\ Ev[l].ok \in {0, 1}
           /\ Add(s, ok)
TOpen == Is("open") /\ Open(Ev[l].id) /\ UNCHANGED <<doing, copy>>
TClose == /\ Is("close") /\ Close(Ev[l].id) /\ UNCHANGED <<doing, copy>>
          /\ Destr => phase # "dead"
TRead == /\ Is("read") /\ UNCHANGED <<doing, copy>>
         /\ Own => ReadOwn(Ev[l].slot) /\ (Ev[l].ok = 1 /\ phase = "live" => ReadAhead)
         /\ Destr => phase # "dead" /\ Ev[l].id \in opened
         /\ Read(Ev[l].slot, Ev[l].ok = 1)
TPull == /\ Is("pull") /\ doing = "idle" /\ doing' = "pull" /\ Pull(Set(Ev[l].s)) /\ UNCHANGED copy
TGot == /\ Is("got") /\ doing = "pull" /\ doing' = "idle"
        /\ Deliver => GotOK(Ev[l].v) /\ Len(Ev[l].s) >= Len(Ev[l].v)
        /\ Own => GotOwn(Set(Ev[l].s)) /\ Ev[l].s # <<>>
        /\ copy' = IF Ev[l].s = <<>> THEN copy ELSE (Ev[l].s[1] :> Ev[l].v) @@ copy
        /\ Got(Set(Ev[l].s), Ev[l].v)
TEod == /\ Is("eod") /\ doing = "pull" /\ doing' = "idle" /\ UNCHANGED <<pipeVars, copy>>
        /\ Deliver => EndOK
(* before handing a batch back the consumer looks at it again *)
TCheck == /\ Is("check") /\ UNCHANGED <<pipeVars, doing, copy>>
          /\ Own => Ev[l].s # <<>> /\ Ev[l].s[1] \in DOMAIN copy /\ Ev[l].v = copy[Ev[l].s[1]]
TDestroy == Is("destroy") /\ doing = "idle" /\ doing' = "destroy" /\ Destroy /\ UNCHANGED copy
TDestroyed == /\ Is("destroyed") /\ doing = "destroy" /\ doing' = "idle" /\ UNCHANGED copy
              /\ Destr => DestroyedOK(Ev[l].id, Ev[l].v[1], Ev[l].v[2])
              /\ Destroyed
TEnd == /\ Is("end") /\ UNCHANGED <<pipeVars, doing, copy>>
        /\ \/ Ev[l].op = "finished"
           \/ Deliver /\ doing = "destroy"
           \/ Destr /\ doing # "destroy"
           \/ Own
TraceNext == TAdd \/ TOpen \/ TClose \/ TRead \/ TPull \/ TGot \/ TEod \/ TCheck \/ TDestroy \/ TDestroyed \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Mark == (l > TLCGet(tid)) => TLCSet(tid, l)
TraceConstraint == Mark
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Rejected == {i \in 1 .. Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}
TraceAccepted == LET R == Rejected IN
   \/ R = {}
   \/ PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in R}>>) /\ FALSE
=============================================================================
