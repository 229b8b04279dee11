------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* The bounded blocking queue as its users see it.  A call of a thread is   *)
(* a record op[t]; elements move one at a time, each move being one atomic  *)
(* step somewhere between call and return.  Null (0) is the terminator      *)
(* element of forced list takes.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES cap,   \* capacity
          q,     \* elements put and not yet taken, oldest first
          op     \* op[t]: the call thread t is executing

qvars == <<cap, q, op>>

Null == 0
Idle == [k |-> "idle", todo |-> <<>>, got |-> <<>>, n |-> 0]

IsPut(o)  == o.k \in {"p", "P"}
IsTake(o) == o.k \in {"t", "T", "F", "y"}

(* p: put one   P: put a list   t: take one   T: list take   F: forced list take   y: take if there is one *)
MkOp(k, v, n) == [k |-> k, todo |-> IF k \in {"p", "P"} THEN v ELSE <<>>,
                  got |-> <<>>, n |-> IF k \in {"t", "y"} THEN 1 ELSE n]

QueueInit(C, T) == cap = C /\ q = <<>> /\ op = [t \in T |-> Idle]

Call(t, k, v, n) == /\ op[t].k = "idle"
                    /\ op' = [op EXCEPT ![t] = MkOp(k, v, n)]
                    /\ UNCHANGED <<cap, q>>

CanPut(t)  == IsPut(op[t]) /\ op[t].todo # <<>> /\ Len(q) < cap
PutOne(t)  == /\ CanPut(t)
              /\ q' = Append(q, Head(op[t].todo))
              /\ op' = [op EXCEPT ![t].todo = Tail(@)]
              /\ UNCHANGED cap

CanTake(t) == IsTake(op[t]) /\ op[t].todo = <<>> /\ Len(op[t].got) < op[t].n /\ q # <<>>
TakeOne(t) == /\ CanTake(t)
              /\ q' = Tail(q)
              /\ op' = [op EXCEPT ![t].got = Append(@, Head(q))]
              /\ UNCHANGED cap

(* a non-blocking take finds the queue empty *)
TryMiss(t) == /\ op[t].k = "y" /\ op[t].got = <<>> /\ op[t].todo = <<>> /\ q = <<>>
              /\ op' = [op EXCEPT ![t].todo = <<Null>>]
              /\ UNCHANGED <<cap, q>>

Complete(o) ==
  CASE IsPut(o)    -> o.todo = <<>>
    [] o.k = "t"   -> Len(o.got) = 1
    [] o.k = "y"   -> Len(o.got) = 1 \/ o.todo # <<>>
    [] o.k = "T"   -> Len(o.got) \in 1 .. o.n
    [] o.k = "F"   -> \/ Len(o.got) = o.n
                      \/ Len(o.got) >= 1 /\ o.got[Len(o.got)] = Null
    [] OTHER       -> FALSE

Return(t, res) == /\ Complete(op[t])
                  /\ res = op[t].got
                  /\ op' = [op EXCEPT ![t] = Idle]
                  /\ UNCHANGED <<cap, q>>

(* A call that is rightly still blocked: it can neither move nor return.   *)
Stuck(t) == op[t].k # "idle" /\ op[t].k # "y" /\ ~CanPut(t) /\ ~CanTake(t) /\ ~Complete(op[t])

QueueBounded == Len(q) <= cap
=============================================================================
