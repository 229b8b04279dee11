------------------------------ MODULE TrainTrace ------------------------------
(***************************************************************************)
(* Training as a function of the sequence of records.  The first model of a  *)
(* recording learns the records one by one and defines, per record, the      *)
(* mistake made, the counters, and the final weights.  Every later model of   *)
(* the recording (same algorithm and parameters) gets the same records in     *)
(* batches, passes, sources and training calls and must show the same         *)
(* counters, progress calls, error rate and, at the end, identical weights.   *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, TraceKit
VARIABLES
  phase,   \* 0 before the first model, 1 reference model, 2 a later model
  ref,     \* per record: [rec, mis (mistakes so far), it, upd]
  fin,     \* final weights of the reference model
  pos,     \* records the current model has had
  one,     \* some of them one by one, outside a training call (such records do not enter the error rate)
  show     \* [kind, base] of the progress display
tvars == <<tid, l, phase, ref, fin, pos, one, show>>
(* progress display: powers of the base or multiples of the step; nxt is the next count to be reported *)
Show0 == [kind |-> "exp", base |-> 2, nxt |-> 2]
TraceInit == KitInit /\ phase = 0 /\ ref = <<>> /\ fin = <<>> /\ pos = 0 /\ one = FALSE /\ show = Show0
TNew ==
  /\ Is("new") /\ Step /\ E.ok
  /\ phase' = IF phase = 0 THEN 1 ELSE 2
  /\ pos' = 0 /\ one' = FALSE /\ show' = Show0
  /\ UNCHANGED <<ref, fin>>
TSet ==
  /\ Is("set") /\ Step /\ E.st = 0
  /\ show' = CASE E.name = "exp_show" -> [kind |-> "exp", base |-> RFloor(RDec(E.val)), nxt |-> RFloor(RDec(E.val))]
               [] E.name = "step_show" -> [kind |-> "step", base |-> RFloor(RDec(E.val)), nxt |-> RFloor(RDec(E.val))]
               [] OTHER -> show
  /\ UNCHANGED <<phase, ref, fin, pos, one>>
TBegin == Is("begin") /\ Step /\ UNCHANGED <<phase, ref, fin, pos, one, show>>
Rec(e) == <<e.y, e.i, e.v>>
(* one record: counted once, at most one update *)
TLearn ==
  /\ Is("learn") /\ Step
  /\ \E prev \in {IF pos = 0 THEN [mis |-> 0, it |-> Tr.t0, upd |-> 0] ELSE ref[pos]} :
     \E now \in {[rec |-> Rec(E), mis |-> prev.mis + (IF E.lab # E.cy THEN 1 ELSE 0), it |-> E.it, upd |-> E.upd]} :
       /\ now.it = prev.it + 1
       /\ now.upd \in {prev.upd, prev.upd + 1}
       /\ IF phase = 1 THEN ref' = Append(ref, now)
          ELSE pos + 1 <= Len(ref) /\ now = ref[pos + 1] /\ UNCHANGED ref
  /\ pos' = pos + 1 /\ one' = TRUE
  /\ UNCHANGED <<phase, fin, show>>
After(s) == [s EXCEPT !.nxt = IF s.kind = "step" THEN @ + s.base ELSE @ * s.base]
(* records d .. to: each count is reported at the first record at or after it, one at a time *)
Reports(from, to) ==
  FoldLeft(LAMBDA a, d : IF d >= a.s.nxt THEN [at |-> Append(a.at, d), s |-> After(a.s)] ELSE a,
           [at |-> <<>>, s |-> show], [k \in 1 .. to - from + 1 |-> from + k - 1] \o <<>>)
Rate(d) == RSingle(RDiv(RInt(ref[d].mis), RInt(d)))
CbAt(c, d) == c[1] = d /\ c[2] = ref[d].it /\ c[3] = ref[d].upd /\ RNear(c[4], Rate(d), "1e-6", "0")
TTrain ==
  /\ Is("train") /\ Step /\ phase = 2
  /\ \E n \in {Len(E.src)} : \E to \in {pos + Len(E.src)} :
     /\ to <= Len(ref) /\ to >= 1
     /\ \A k \in 1 .. n : Rec(E.src[k]) = ref[pos + k].rec
     /\ pos' = to
     /\ E.it = ref[to].it /\ E.upd = ref[to].upd
     /\ IF one THEN TRUE ELSE RNear(E.er, Rate(to), "1e-6", "0")
     /\ IF one THEN UNCHANGED show ELSE \E rep \in {Reports(pos + 1, to)} :
          /\ Len(E.cb) = Len(rep.at) + 1
          /\ \A k \in 1 .. Len(rep.at) : CbAt(E.cb[k], rep.at[k])
          /\ CbAt(E.cb[Len(E.cb)], to)
          /\ show' = rep.s
  /\ UNCHANGED <<phase, ref, fin, one>>
Flat(w, n) == [c \in 1 .. Len(w) |-> [j \in 1 .. n |-> IF j <= Len(w[c]) THEN w[c][j] ELSE 0] \o <<>>] \o <<>>
Zero(b) == BitsZero(b)
SameBits(a, b) == IF a = b THEN TRUE ELSE Zero(a) /\ Zero(b)
SameW(u, w) ==
  \E n \in {IF Len(u[1]) > Len(w[1]) THEN Len(u[1]) ELSE Len(w[1])} :
    \E a \in {Flat(u, n)} : \E b \in {Flat(w, n)} : \A c \in 1 .. Len(a) : \A j \in 1 .. n : SameBits(a[c][j], b[c][j])
TFinal ==
  /\ Is("final") /\ Step
  /\ IF phase = 1 THEN fin' = E.w
     ELSE pos = Len(ref) /\ SameW(fin, E.w) /\ E.it = ref[pos].it /\ E.upd = ref[pos].upd /\ UNCHANGED fin
  /\ UNCHANGED <<phase, ref, pos, one, show>>
TEnd == Ended /\ UNCHANGED <<phase, ref, fin, pos, one, show>>
TraceNext == TNew \/ TSet \/ TBegin \/ TLearn \/ TTrain \/ TFinal \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
