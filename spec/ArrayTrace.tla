----------------------------- MODULE ArrayTrace -----------------------------
(***************************************************************************)
(* In-memory sources. A trace gives the array (kind dense or csr) and what  *)
(* the reader (or the iterator behind the C interface) delivered.           *)
(*   dense: rows, cols, stride, y (sequence, empty if absent), x (flat)      *)
(*   csr:   rows, y, ptr (relative to its first entry), col, x               *)
(* Values are decimal strings exactly representable in single precision.     *)
(***************************************************************************)
EXTENDS Text, TraceKit
VARIABLES row, pass
tvars == <<tid, l, row, pass>>
TraceInit == KitInit /\ row = 1 /\ pass = 1
Label(i) == IF Tr.y = <<>> THEN "0" ELSE Tr.y[i]
Entries(i) ==
  IF Tr.kind = "dense"
  THEN LET all == [j \in 1 .. Tr.cols |-> [i |-> ToString(j), t |-> Tr.x[(i - 1) * Tr.stride + j]]]
       IN SelectSeq(all, LAMBDA e : ~DecIsZero(e.t))
  ELSE LET b == Tr.ptr[i] - Tr.ptr[1]  n == Tr.ptr[i + 1] - Tr.ptr[i]
       IN [j \in 1 .. n |-> [i |-> ToString(Tr.col[b + j] + 1), t |-> Tr.x[b + j]]]
SameRow(i, o) ==
  \E e \in {Sort(Entries(i), PairLT)} :
  \E p0 \in {[k \in 1 .. Len(o.idx) |-> [i |-> o.idx[k], b |-> o.val[k]]] \o <<>>} :
  \E p \in {Sort(p0, ObsLT)} :
  /\ IntEq(Label(i), o.label)
  /\ Len(o.idx) = Len(o.val) /\ Len(e) = Len(p)
  /\ \A k \in 1 .. Len(p0) - 1 : IntLE(p0[k].i, p0[k + 1].i)
  /\ \A k \in 1 .. Len(e) : IntEq(e[k].i, p[k].i) /\ DecNear(e[k].t, p[k].b)
TOpen == Is("open") /\ Step /\ UNCHANGED <<row, pass>> /\ E.st = 0
(* behind the iterator the passes follow each other without a visible rewind *)
TRec == /\ Is("rec") /\ E.st = 0 /\ Step /\ row <= Tr.rows /\ SameRow(row, E)
        /\ IF Tr.via = "api" /\ row = Tr.rows /\ pass < Tr.passes
           THEN row' = 1 /\ pass' = pass + 1
           ELSE row' = row + 1 /\ UNCHANGED pass
TEof == Is("rec") /\ E.st = 3 /\ Step /\ row = Tr.rows + 1 /\ UNCHANGED <<row, pass>>
TRewind == Is("rewind") /\ Step /\ row' = 1 /\ pass' = pass + 1
TRefuse == Is("refuse") /\ Step /\ E.st # 0 /\ UNCHANGED <<row, pass>>
TEnd == Ended /\ UNCHANGED <<row, pass>>
TraceNext == TOpen \/ TRec \/ TEof \/ TRewind \/ TRefuse \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
