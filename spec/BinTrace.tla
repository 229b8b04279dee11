------------------------------ MODULE BinTrace ------------------------------
(***************************************************************************)
(* The binary format: a file is the concatenation of its records' codes.    *)
(* State: the records written with the file length after each; the length   *)
(* of the file being read and how many of its records were read.             *)
(* The codec of ascending index lists is checked alone for every width.      *)
(***************************************************************************)
EXTENDS TraceKit
VARIABLES recs, at, got
tvars == <<tid, l, recs, at, got>>
TraceInit == KitInit /\ recs = <<>> /\ at = 0 /\ got = 0
Body(e) == [label |-> e.label, idx |-> e.idx, val |-> e.val]
Whole(n) == Cardinality({k \in 1 .. Len(recs) : recs[k].size <= n})
TWrote == Is("wrote") /\ Step /\ UNCHANGED <<at, got>>
          /\ (recs # <<>> => E.size > recs[Len(recs)].size) /\ E.size > 0
          /\ recs' = Append(recs, [b |-> Body(E), size |-> E.size])
TCut == Is("cut") /\ Step /\ UNCHANGED recs /\ at' = E.at /\ got' = 0
TOpen == Is("open") /\ Step /\ UNCHANGED <<recs, at, got>> /\ (E.st = 0 \/ Whole(at) = 0)
TRec == Is("rec") /\ E.st = 0 /\ Step /\ UNCHANGED <<recs, at>> /\ got' = got + 1
        /\ got < Whole(at) /\ Body(E) = recs[got + 1].b
TStop == Is("rec") /\ E.st # 0 /\ Step /\ UNCHANGED <<recs, at, got>> /\ got = Whole(at)
         /\ (at = (IF recs = <<>> THEN 0 ELSE recs[Len(recs)].size) => E.st = 3)
TCodec == Is("codec") /\ Step /\ UNCHANGED <<recs, at, got>> /\ E.out = E.in
TEnd == Ended /\ UNCHANGED <<recs, at, got>>
TraceNext == TWrote \/ TCut \/ TOpen \/ TRec \/ TStop \/ TCodec \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
