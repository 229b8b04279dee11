----------------------------- MODULE PointTrace -----------------------------
(***************************************************************************)
(* Data points as values: three points, each a label and a sequence of      *)
(* (index, value) pairs. Operations on one never show in another.            *)
(***************************************************************************)
EXTENDS Text, TraceKit
VARIABLES pts, chk
tvars == <<tid, l, pts, chk>>
Empty == [label |-> "0", f |-> <<>>]
TraceInit == KitInit /\ pts = [p \in 1 .. 3 |-> Empty] /\ chk = "exact"
P == E.p
Q == E.n + 1        \* the other point of a clone; E.n: position or size for set and resize
(* after Sort the order among equal indexes is free *)
TOp ==
  /\ Is("op") /\ Step
  /\ chk' = CASE E.op = "sort" -> "sorted" [] OTHER -> "exact"
  /\ pts' = CASE E.op = "add" -> [pts EXCEPT ![P].f = Append(@, <<E.a, E.b>>)]
              [] E.op = "label" -> [pts EXCEPT ![P].label = E.a]
              [] E.op = "sort" -> pts
              [] E.op \in {"clone", "newclone"} -> [pts EXCEPT ![Q] = pts[P]]
              [] E.op = "clear" -> [pts EXCEPT ![P] = Empty]
              [] E.op = "resize" -> [pts EXCEPT ![P].f = SubSeq(@, 1, E.n)]
              [] E.op = "set" -> IF E.n < Len(pts[P].f) THEN [pts EXCEPT ![P].f[E.n + 1][2] = E.b] ELSE pts
              [] OTHER -> pts
Obs(o) == [k \in 1 .. Len(o.idx) |-> <<o.idx[k], o.val[k]>>]
Strict(f) == \A k \in 1 .. Len(f) - 1 : IntLE(f[k][1], f[k + 1][1]) /\ ~IntEq(f[k][1], f[k + 1][1])
Asc(f) == \A k \in 1 .. Len(f) - 1 : IntLE(f[k][1], f[k + 1][1])
Bag(s) == [x \in {s[k] : k \in 1 .. Len(s)} |-> Cardinality({k \in 1 .. Len(s) : s[k] = x})]
Shape(o) == \E f \in {Obs(o) \o <<>>} :
   /\ Len(o.idx) = o.n /\ Len(o.val) = o.n
   /\ o.sorted = Strict(f)
   /\ (f = <<>> => o.dim = "0") /\ (f # <<>> /\ Asc(f) => IntEq(o.dim, IntSucc(f[Len(f)][1])))
Sorted == Ev[l - 1].op = "sort"
TState ==
  /\ Is("state") /\ Step /\ UNCHANGED chk
  /\ \A p \in 1 .. 3 : Shape(E.pts[p])
  /\ \A p \in 1 .. 3 :
       \E f \in {Obs(E.pts[p]) \o <<>>} :
       IF Sorted /\ p = Ev[l - 1].p
       THEN Bag(f) = Bag(pts[p].f) /\ Asc(f)
       ELSE f = pts[p].f
  /\ \A p \in 1 .. 3 : IntEq(E.pts[p].label, pts[p].label)
  /\ pts' = [p \in 1 .. 3 |-> [label |-> E.pts[p].label, f |-> Obs(E.pts[p]) \o <<>>]]
TEnd == Ended /\ UNCHANGED <<pts, chk>>
TraceNext == TOp \/ TState \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
