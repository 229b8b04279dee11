--------------------------------- MODULE TopB ---------------------------------
(***************************************************************************)
(* The selection heap of the second order feature selection learners: a heap *)
(* of K of the N features with the worst kept one on top.  Learning a record *)
(* makes the values of its features larger (more confident), one after the   *)
(* other, sifting those that are kept; then each feature of the record that  *)
(* is not kept is offered and replaces the top if it is better.              *)
(* Checked: after every record the K kept features are K best ones, so that  *)
(* the incremental heap implements the selection stated in module Learner.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K, Max,
  Sift       \* negative control: FALSE leaves out the sifting of kept features
VARIABLES val,   \* value of each feature
  heap,          \* position (0 .. K-1) -> feature
  todo, offer    \* features of the record still to be raised, then to be offered
vars == <<val, heap, todo, offer>>
Feats == 1 .. N
Kept == {heap[i] : i \in 0 .. K - 1}
(* sift the element at position s down (min heap) *)
RECURSIVE Down(_, _, _)
Down(h, v, s) ==
  LET l == 2 * s + 1
      r == 2 * s + 2
      c == IF r < K /\ v[h[r]] < v[h[l]] THEN r ELSE l
  IN IF l >= K THEN h
     ELSE IF v[h[c]] < v[h[s]] THEN Down([h EXCEPT ![s] = h[c], ![c] = h[s]], v, c) ELSE h
PosOf(f) == CHOOSE i \in 0 .. K - 1 : heap[i] = f
Init == /\ val = [f \in Feats |-> 0] /\ heap = [i \in 0 .. K - 1 |-> i + 1] /\ todo = {} /\ offer = {}
Start(F) == todo = {} /\ offer = {} /\ todo' = F /\ offer' = F /\ UNCHANGED <<val, heap>>
Raise(f, v) ==
  /\ f \in todo /\ v >= val[f]
  /\ val' = [val EXCEPT ![f] = v] /\ todo' = todo \ {f} /\ UNCHANGED offer
  /\ heap' = IF f \in Kept /\ Sift THEN Down(heap, val', PosOf(f)) ELSE heap
Offer(f) ==
  /\ todo = {} /\ f \in offer /\ offer' = offer \ {f} /\ UNCHANGED <<val, todo>>
  /\ heap' = IF f \notin Kept /\ val[heap[0]] < val[f] THEN Down([heap EXCEPT ![0] = f], val, 0) ELSE heap
Next == \/ \E F \in SUBSET Feats \ {{}} : Start(F)
        \/ \E f \in Feats : \E v \in 0 .. Max : Raise(f, v)
        \/ \E f \in Feats : Offer(f)
Spec == Init /\ [][Next]_vars
HeapOK == \A i \in 1 .. K - 1 : val[heap[(i - 1) \div 2]] <= val[heap[i]]
Distinct == Cardinality(Kept) = K
BestKept == (todo = {} /\ offer = {}) => \A f \in Kept : \A g \in Feats \ Kept : val[g] <= val[f]
=============================================================================
