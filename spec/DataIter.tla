------------------------------ MODULE DataIter ------------------------------
(***************************************************************************)
(* The iterator as implemented: free batches wait in `factory`, filled ones *)
(* in `buf` (both blocking queues, see Queue), nil in buf marks the end of   *)
(* a source, nil in factory tells readers to stop.  One reader thread per   *)
(* source, the next one is started by the consumer when it meets nil.        *)
(* Checked exhaustively: every consumer behaviour (adding, pulling with or   *)
(* without handing back, destroying at any time), every interleaving.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BatchSize, BatchNum,
          Sources,      \* sequence of sources in the order in which they may be added
          MaxPulls,
          OldDtor       \* TRUE: destructor drains with size() then a blocking take (negative control)

nil == 0
Batches == 1 .. BatchNum
VARIABLES factory, buf, content,        \* content[b]: records in batch b
          readers,                      \* accepted sources, in order
          idx,                          \* running_reader_idx_
          rpc, rpass, rpos, rbatch,     \* per reader
          cpc, cheld, cgot, nadd, npull, dsaw, ended, freed,
          exp, ndel, nread, opened, phase
vars == <<factory, buf, content, readers, idx, rpc, rpass, rpos, rbatch, cpc, cheld, cgot, nadd, npull, dsaw,
          ended, freed, exp, ndel, nread, opened, phase>>

Slots(b) == {b * 10 + i : i \in 1 .. BatchSize}
Pend == UNION {{b * 10 + i : i \in 1 .. Len(content[b])} : b \in (Batches \ cheld) \ freed}
HeldSlots == UNION {Slots(b) : b \in cheld}
P == INSTANCE Pipe WITH bsize <- BatchSize, bnum <- BatchNum, pending <- Pend, held <- HeldSlots

Init == /\ factory = [i \in 1 .. BatchNum |-> i] /\ buf = <<nil>> /\ content = [b \in Batches |-> <<>>]
        /\ readers = <<>> /\ idx = 0
        /\ rpc = <<>> /\ rpass = <<>> /\ rpos = <<>> /\ rbatch = <<>>
        /\ cpc = "ready" /\ cheld = {} /\ cgot = 0 /\ nadd = 0 /\ npull = 0 /\ dsaw = FALSE /\ ended = FALSE /\ freed = {}
        /\ exp = <<>> /\ ndel = 0 /\ nread = 0 /\ opened = {} /\ phase = "live"

abs == <<exp, ndel, nread, opened, phase>>
rd == <<rpc, rpass, rpos, rbatch>>

(* ------------------------------- consumer ------------------------------- *)
AddSource == /\ cpc = "ready" /\ nadd < Len(Sources)
             /\ nadd' = nadd + 1
             /\ LET s == Sources[nadd + 1] IN
                IF s.bad THEN UNCHANGED <<readers, rd, exp, opened>>
                ELSE /\ readers' = Append(readers, s) /\ rpc' = Append(rpc, "new") /\ rpass' = Append(rpass, s.passes)
                     /\ rpos' = Append(rpos, 0) /\ rbatch' = Append(rbatch, nil)
                     /\ exp' = exp \o P!Stream(s) /\ opened' = opened \cup {s.id}
             /\ UNCHANGED <<factory, buf, content, idx, cpc, cheld, cgot, npull, dsaw, ended, freed, ndel, nread, phase>>

(* pull, handing back batch b (nil: none) *)
StartPull(b) == /\ cpc = "ready" /\ npull < MaxPulls
                /\ b \in cheld \cup {nil}
                /\ Cardinality(cheld \ {b}) < BatchNum     \* a consumer holding every batch waits for itself
                /\ npull' = npull + 1
                /\ cpc' = "take"
                /\ IF b = nil THEN UNCHANGED <<factory, cheld, content>>
                   ELSE /\ factory' = Append(factory, b) /\ cheld' = cheld \ {b}
                        /\ content' = [content EXCEPT ![b] = <<>>]
                /\ UNCHANGED <<buf, readers, idx, rd, cgot, nadd, dsaw, ended, freed, abs>>

StartReader(i) == rpc' = [rpc EXCEPT ![i] = "get"]

TakeBuf == /\ cpc = "take" /\ buf # <<>>
           /\ LET el == Head(buf) IN
              IF el # nil
              THEN /\ buf' = Tail(buf) /\ cpc' = "ready" /\ cheld' = cheld \cup {el} /\ cgot' = el
                   /\ ndel' = ndel + Len(content[el])
                   /\ UNCHANGED <<idx, rd, ended>>
              ELSE IF idx < Len(readers)
                   THEN /\ buf' = Tail(buf) /\ idx' = idx + 1 /\ StartReader(idx + 1)
                        /\ UNCHANGED <<cpc, cheld, cgot, ndel, rpass, rpos, rbatch, ended>>
                   ELSE /\ buf' = Append(Tail(buf), nil)    \* the end marker is put back
                        /\ cpc' = "ready" /\ ended' = TRUE
                        /\ UNCHANGED <<idx, rd, cheld, cgot, ndel>>
           /\ UNCHANGED <<factory, content, readers, nadd, npull, dsaw, freed, exp, nread, opened, phase>>

(* destructor *)
DStart == /\ cpc = "ready" /\ phase' = "destroying" /\ cpc' = "drain"
          /\ UNCHANGED <<factory, buf, content, readers, idx, rd, cheld, cgot, nadd, npull, dsaw, ended, freed, exp, ndel, nread, opened>>
DDrain == /\ cpc = "drain"
          /\ IF factory = <<>>
             THEN /\ cpc' = "signal" /\ UNCHANGED <<factory, freed>>
             ELSE IF OldDtor
                  THEN cpc' = "drain2" /\ UNCHANGED <<factory, freed>>
                  ELSE /\ factory' = Tail(factory) /\ freed' = freed \cup ({Head(factory)} \ {nil}) /\ UNCHANGED cpc
          /\ UNCHANGED <<buf, content, readers, idx, rd, cheld, cgot, nadd, npull, dsaw, ended, abs>>
DDrain2 == /\ cpc = "drain2" /\ factory # <<>>       \* blocking take
           /\ factory' = Tail(factory) /\ freed' = freed \cup ({Head(factory)} \ {nil}) /\ cpc' = "drain"
           /\ UNCHANGED <<buf, content, readers, idx, rd, cheld, cgot, nadd, npull, dsaw, ended, abs>>
DSignal == /\ cpc = "signal" /\ factory' = Append(factory, nil) /\ cpc' = "dbuf"
           /\ UNCHANGED <<buf, content, readers, idx, rd, cheld, cgot, nadd, npull, dsaw, ended, freed, abs>>
DBuf == /\ cpc = "dbuf"
        /\ IF idx > Len(readers) THEN cpc' = "join" /\ UNCHANGED <<buf, idx, rd, freed>>
           ELSE /\ buf # <<>> /\ buf' = Tail(buf) /\ UNCHANGED cpc
                /\ IF Head(buf) = nil
                   THEN /\ idx' = idx + 1
                        /\ IF idx + 1 <= Len(readers) THEN StartReader(idx + 1) ELSE UNCHANGED rpc
                        /\ UNCHANGED <<rpass, rpos, rbatch, freed>>
                   ELSE freed' = freed \cup {Head(buf)} /\ UNCHANGED <<idx, rd>>
        /\ UNCHANGED <<factory, content, readers, cheld, cgot, nadd, npull, dsaw, ended, abs>>
DJoin == /\ cpc = "join" /\ \A i \in 1 .. Len(readers) : rpc[i] = "done"
         /\ freed' = freed \cup ({factory[i] : i \in DOMAIN factory} \ {nil})
         /\ factory' = <<>> /\ cpc' = "gone" /\ phase' = "dead"
         /\ UNCHANGED <<buf, content, readers, idx, rd, cheld, cgot, nadd, npull, dsaw, ended, exp, ndel, nread, opened>>

(* -------------------------------- readers ------------------------------- *)
rest == <<readers, idx, cpc, cheld, cgot, nadd, npull, dsaw, ended, freed, exp, ndel, phase>>
RGet(i) == /\ rpc[i] = "get"
           /\ IF rpass[i] <= 0
              THEN rpc' = [rpc EXCEPT ![i] = "close"] /\ UNCHANGED <<factory, rbatch, content>>
              ELSE /\ factory # <<>>
                   /\ LET b == Head(factory) IN
                      IF b = nil
                      THEN /\ rpc' = [rpc EXCEPT ![i] = "close"] /\ factory' = Append(Tail(factory), nil)
                           /\ UNCHANGED <<rbatch, content>>
                      ELSE /\ factory' = Tail(factory) /\ rbatch' = [rbatch EXCEPT ![i] = b]
                           /\ content' = [content EXCEPT ![b] = <<>>]
                           /\ rpc' = [rpc EXCEPT ![i] = "fill"]
           /\ UNCHANGED <<buf, rpass, rpos, nread, opened, rest>>
Errs(i) == LET s == readers[i] IN s.epass = s.passes - rpass[i] + 1 /\ s.epos = rpos[i] + 1
RFill(i) == /\ rpc[i] = "fill"
            /\ LET b == rbatch[i] s == readers[i] IN
               IF Len(content[b]) = BatchSize THEN rpc' = [rpc EXCEPT ![i] = "put"] /\ UNCHANGED <<content, rpos, rpass, nread>>
               ELSE IF Errs(i) THEN rpc' = [rpc EXCEPT ![i] = "putlast"] /\ UNCHANGED <<content, rpos, rpass, nread>>
               ELSE IF rpos[i] = s.n
                    THEN /\ rpc' = [rpc EXCEPT ![i] = "put"] /\ rpos' = [rpos EXCEPT ![i] = 0]
                         /\ rpass' = [rpass EXCEPT ![i] = @ - 1] /\ UNCHANGED <<content, nread>>
                    ELSE /\ content' = [content EXCEPT ![b] = Append(@, P!Rec(s, rpos[i] + 1))]
                         /\ rpos' = [rpos EXCEPT ![i] = @ + 1] /\ nread' = nread + 1 /\ UNCHANGED <<rpc, rpass>>
            /\ UNCHANGED <<factory, buf, rbatch, opened, rest>>
RPut(i) == /\ rpc[i] \in {"put", "putlast"} /\ Len(buf) < BatchNum
           /\ buf' = Append(buf, rbatch[i])
           /\ rpc' = [rpc EXCEPT ![i] = IF @ = "put" THEN "get" ELSE "close"]
           /\ UNCHANGED <<factory, content, rpass, rpos, rbatch, nread, opened, rest>>
RClose(i) == /\ rpc[i] = "close" /\ rpc' = [rpc EXCEPT ![i] = "mark"] /\ opened' = opened \ {readers[i].id}
             /\ UNCHANGED <<factory, buf, content, rpass, rpos, rbatch, nread, rest>>
RMark(i) == /\ rpc[i] = "mark" /\ Len(buf) < BatchNum
            /\ buf' = Append(buf, nil) /\ rpc' = [rpc EXCEPT ![i] = "done"]
            /\ UNCHANGED <<factory, content, rpass, rpos, rbatch, nread, opened, rest>>

Reader(i) == RGet(i) \/ RFill(i) \/ RPut(i) \/ RClose(i) \/ RMark(i)
Dtor == DDrain \/ DDrain2 \/ DSignal \/ DBuf \/ DJoin
Over == cpc = "gone" /\ UNCHANGED vars
Next == \/ AddSource \/ (\E b \in Batches \cup {nil} : StartPull(b)) \/ TakeBuf \/ DStart \/ Dtor
        \/ (\E i \in 1 .. Len(readers) : Reader(i)) \/ Over
MaxReaders == Len(SelectSeq(Sources, LAMBDA s : ~s.bad))
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(TakeBuf) /\ WF_vars(Dtor)
        /\ \A i \in 1 .. MaxReaders : WF_vars(i <= Len(readers) /\ Reader(i))

(* ------------------------------- properties ----------------------------- *)
(* C03/C05/C06: each batch continues the expected sequence; end only when all was delivered *)
TookBatch == cpc = "take" /\ cpc' = "ready" /\ cheld' # cheld
TookEnd   == cpc = "take" /\ cpc' = "ready" /\ cheld' = cheld
DeliverOK == [][(TookBatch => P!GotOK(content[cgot'])) /\ (TookEnd => P!EndOK)]_vars
(* C04 *)
OwnOK == /\ \A i, j \in 1 .. Len(buf) : (i # j /\ buf[i] # nil) => buf[i] # buf[j]
         /\ \A i \in 1 .. Len(buf) : buf[i] \notin cheld
         /\ \A i \in 1 .. Len(readers) : rpc[i] \in {"fill", "put", "putlast"} =>
               rbatch[i] \notin cheld /\ \A k \in DOMAIN buf : buf[k] # rbatch[i]
AheadOK == nread - ndel + Cardinality(HeldSlots) <= BatchNum * BatchSize
CapOK == Len(buf) <= BatchNum /\ Len(factory) <= BatchNum
(* C05: pulls return *)
PullReturns == (cpc = "take") ~> (cpc = "ready")
(* C07 *)
Gone == cpc = "gone" => /\ opened = {} /\ \A i \in 1 .. Len(readers) : rpc[i] = "done"
                        /\ freed = Batches \ cheld
DtorReturns == (cpc = "drain") ~> (cpc = "gone")
=============================================================================
