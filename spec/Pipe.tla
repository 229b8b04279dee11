-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* The data iterator as its consumer and its data sources see it: sources   *)
(* are added, their records are read ahead into slots of a bounded number   *)
(* of batches, batches are handed to the consumer and handed back, and the  *)
(* iterator can be destroyed at any time.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES bsize,     \* records per batch
          bnum,      \* number of batches
          exp,       \* records the consumer is entitled to, given the sources added so far
          ndel,      \* how many of them were delivered
          nread,     \* records read successfully by sources
          pending,   \* slots holding a record read but not yet delivered
          held,      \* slots of batches in the consumer's hands
          opened,    \* sources opened and not yet closed
          phase      \* "live", "destroying", "dead"
pipeVars == <<bsize, bnum, exp, ndel, nread, pending, held, opened, phase>>

(* A source: n records r, 2r..; passes; an error at record position epos of  *)
(* pass epass (0: none); bad: it cannot be opened or has no known format.    *)
Rec(s, i) == s.id * 100 + i
Pass(s, m) == [i \in 1 .. m |-> Rec(s, i)]
RECURSIVE Repeat(_, _)
Repeat(q, k) == IF k <= 0 THEN <<>> ELSE q \o Repeat(q, k - 1)
Stream(s) == IF s.epass = 0 \/ s.epass > s.passes
             THEN Repeat(Pass(s, s.n), s.passes)
             ELSE Repeat(Pass(s, s.n), s.epass - 1) \o Pass(s, s.epos - 1)

PipeInit(bs, bn) == /\ bsize = bs /\ bnum = bn /\ exp = <<>> /\ ndel = 0 /\ nread = 0
                    /\ pending = {} /\ held = {} /\ opened = {} /\ phase = "live"

(* clause: sources are refused exactly if they are bad *)
AddOK(s, accepted) == accepted = ~s.bad
Add(s, accepted) == /\ phase = "live"
                    /\ exp' = IF accepted THEN exp \o Stream(s) ELSE exp
                    /\ UNCHANGED <<bsize, bnum, ndel, nread, pending, held, opened, phase>>

Open(id)  == /\ phase = "live" /\ opened' = opened \cup {id}
             /\ UNCHANGED <<bsize, bnum, exp, ndel, nread, pending, held, phase>>
Close(id) == /\ opened' = opened \ {id}
             /\ UNCHANGED <<bsize, bnum, exp, ndel, nread, pending, held, phase>>

(* clause: the slot belongs to nobody else; slot 0 is memory outside batches *)
ReadOwn(slot) == slot # 0 => slot \notin held /\ slot \notin pending
ReadAhead == nread + 1 - ndel + Cardinality(held) <= bnum * bsize
Read(slot, ok) == /\ nread' = nread + (IF ok THEN 1 ELSE 0)
                  /\ pending' = IF ok /\ slot # 0 THEN pending \cup {slot} ELSE pending
                  /\ UNCHANGED <<bsize, bnum, exp, ndel, held, opened, phase>>

Pull(back) == /\ phase = "live" /\ held' = held \ back
              /\ UNCHANGED <<bsize, bnum, exp, ndel, nread, pending, opened, phase>>

(* clause: delivered records continue the expected sequence *)
GotOK(items) == /\ Len(items) <= bsize
                /\ ndel + Len(items) <= Len(exp)
                /\ \A i \in 1 .. Len(items) : items[i] = exp[ndel + i]
(* clause: the batch was in nobody's hands *)
GotOwn(slots) == slots \cap held = {}
Got(slots, items) == /\ phase = "live"
                     /\ ndel' = ndel + Len(items)
                     /\ held' = held \cup slots /\ pending' = pending \ slots
                     /\ UNCHANGED <<bsize, bnum, exp, nread, opened, phase>>

(* clause: end of data is reported only after everything was delivered *)
EndOK == ndel = Len(exp)

Destroy == /\ phase = "live" /\ phase' = "destroying"
           /\ UNCHANGED <<bsize, bnum, exp, ndel, nread, pending, held, opened>>
(* clause: no thread left, every source closed, every batch released once *)
DestroyedOK(threads, leak, badfree) == threads = 0 /\ opened = {} /\ leak = 0 /\ badfree = 0
Destroyed == /\ phase = "destroying" /\ phase' = "dead"
             /\ UNCHANGED <<bsize, bnum, exp, ndel, nread, pending, held, opened>>
=============================================================================
