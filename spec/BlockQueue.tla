----------------------------- MODULE BlockQueue -----------------------------
(***************************************************************************)
(* The queue as implemented: ring buffer, one mutex, condition variables    *)
(* nonfull and nonempty, one action per step taken with the mutex held.     *)
(* Refines Queue.  Checked exhaustively for the thread scripts in Script.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Capacity,      \* ring size
          Script,        \* Script[t] = sequence of calls of thread t
          MaxSpurious,   \* spurious wake-ups explored
          ForceLoop,     \* TRUE: re-test after a forced wait (as implemented now)
          SingleNotify   \* TRUE: a single put notifies one waiter (as implemented)

T == DOMAIN Script
VARIABLES elems, head, count,      \* ring buffer
          lock,                    \* owner, 0 = free
          pc, todoS,               \* program counter, calls left
          waitFull, waitEmpty,     \* condition variable wait sets
          op, spurious, hin, hout, bad
vars == <<elems, head, count, lock, pc, todoS, waitFull, waitEmpty, op, spurious, hin, hout, bad>>

Contents == [i \in 1 .. count |-> elems[((head + i - 1) % Capacity)]]
Abs == INSTANCE Queue WITH cap <- Capacity, q <- Contents, op <- op

Init == /\ elems = [i \in 0 .. Capacity - 1 |-> 0] /\ head = 0 /\ count = 0
        /\ lock = 0 /\ pc = [t \in T |-> "idle"] /\ todoS = Script
        /\ waitFull = {} /\ waitEmpty = {}
        /\ op = [t \in T |-> Abs!Idle]
        /\ spurious = 0 /\ hin = <<>> /\ hout = <<>> /\ bad = FALSE

Ring == <<elems, head, count>>

Start(t) == /\ pc[t] = "idle" /\ todoS[t] # <<>>
            /\ LET c == Head(todoS[t]) IN op' = [op EXCEPT ![t] = Abs!MkOp(c[1], c[2], c[3])]
            /\ todoS' = [todoS EXCEPT ![t] = Tail(@)]
            /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<Ring, lock, waitFull, waitEmpty, spurious, hin, hout, bad>>

Lock(t) == /\ pc[t] \in {"lock", "relock", "reforce"} /\ lock = 0
           /\ lock' = t
           /\ pc' = [pc EXCEPT ![t] = IF @ = "reforce" /\ ~ForceLoop THEN "grab" ELSE "body"]
           /\ UNCHANGED <<Ring, todoS, waitFull, waitEmpty, op, spurious, hin, hout, bad>>

Back(t) == IF pc[t] = "waitf" THEN "reforce" ELSE "relock"
WakeAll(S) == [t \in T |-> IF t \in S THEN Back(t) ELSE pc[t]]

DoPut(t) == LET tail == (head + count) % Capacity
                e == Head(op[t].todo) IN
            /\ elems' = [elems EXCEPT ![tail] = e]
            /\ count' = count + 1 /\ UNCHANGED head
            /\ op' = [op EXCEPT ![t].todo = Tail(@)]
            /\ hin' = Append(hin, e) /\ UNCHANGED hout
DoTake(t) == LET e == elems[head] IN
            /\ head' = (head + 1) % Capacity /\ count' = count - 1 /\ UNCHANGED elems
            /\ op' = [op EXCEPT ![t].got = Append(@, e)]
            /\ hout' = Append(hout, e) /\ UNCHANGED hin

(* wait on a condition variable: release the mutex and sleep *)
WaitFull(t, pcn) == /\ waitFull' = waitFull \cup {t} /\ lock' = 0
                    /\ pc' = [pcn EXCEPT ![t] = "wait"]
WaitEmpty(t, pcn, tag) == /\ waitEmpty' = waitEmpty \cup {t} /\ lock' = 0
                          /\ pc' = [pcn EXCEPT ![t] = tag]

BodyPut(t) ==
  /\ pc[t] = "body" /\ lock = t /\ Abs!IsPut(op[t])
  /\ \/ /\ op[t].todo = <<>>              \* finished: notify and leave
        /\ IF op[t].k = "p" /\ SingleNotify
           THEN IF waitEmpty = {}
                THEN /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED waitEmpty
                ELSE \E w \in waitEmpty : /\ waitEmpty' = waitEmpty \ {w}
                                          /\ pc' = [pc EXCEPT ![t] = "unlock", ![w] = Back(w)]
           ELSE /\ waitEmpty' = {} /\ pc' = [WakeAll(waitEmpty) EXCEPT ![t] = "unlock"]
        /\ UNCHANGED <<Ring, lock, waitFull, op, hin, hout>>
     \/ /\ op[t].todo # <<>> /\ count = Capacity
        /\ IF op[t].k = "P"
           THEN /\ waitEmpty' = {} /\ WaitFull(t, WakeAll(waitEmpty))
           ELSE /\ UNCHANGED waitEmpty /\ WaitFull(t, pc)
        /\ UNCHANGED <<Ring, op, hin, hout>>
     \/ /\ op[t].todo # <<>> /\ count < Capacity
        /\ DoPut(t)
        /\ UNCHANGED <<lock, pc, waitFull, waitEmpty>>
  /\ UNCHANGED <<todoS, spurious, bad>>

Forcing(t) == op[t].k = "F" /\ op[t].got # <<>> /\ op[t].got[Len(op[t].got)] # 0

BodyTake(t) ==
  /\ pc[t] = "body" /\ lock = t /\ Abs!IsTake(op[t])
  /\ LET got == Len(op[t].got) IN
     \/ /\ got = op[t].n \/ (got > 0 /\ count = 0 /\ ~Forcing(t))   \* leave
        /\ waitFull' = {} /\ pc' = [WakeAll(waitFull) EXCEPT ![t] = "unlock"]
        /\ UNCHANGED <<Ring, lock, waitEmpty, op, hin, hout>>
     \/ /\ op[t].k = "y" /\ count = 0 /\ got = 0                     \* non-blocking: leave at once
        /\ op' = [op EXCEPT ![t].todo = <<0>>] /\ pc' = [pc EXCEPT ![t] = "unlock"]
        /\ UNCHANGED <<Ring, lock, waitFull, waitEmpty, hin, hout>>
     \/ /\ op[t].k # "y" /\ got < op[t].n /\ count = 0 /\ got = 0
        /\ WaitEmpty(t, pc, "wait")
        /\ UNCHANGED <<Ring, waitFull, op, hin, hout>>
     \/ /\ got < op[t].n /\ count = 0 /\ got > 0 /\ Forcing(t)
        /\ waitFull' = {} /\ WaitEmpty(t, WakeAll(waitFull), "waitf")
        /\ UNCHANGED <<Ring, op, hin, hout>>
     \/ /\ got < op[t].n /\ count > 0
        /\ DoTake(t)
        /\ UNCHANGED <<lock, pc, waitFull, waitEmpty>>
  /\ UNCHANGED <<todoS, spurious, bad>>

(* without ForceLoop: take right after the forced wait, whatever the count *)
Grab(t) == /\ pc[t] = "grab" /\ lock = t
           /\ bad' = (bad \/ count = 0)
           /\ IF count = 0 THEN UNCHANGED <<Ring, op, hin, hout>> ELSE DoTake(t)
           /\ pc' = [pc EXCEPT ![t] = "body"]
           /\ UNCHANGED <<lock, todoS, waitFull, waitEmpty, spurious>>

Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0
             /\ pc' = [pc EXCEPT ![t] = "ret"]
             /\ UNCHANGED <<Ring, todoS, waitFull, waitEmpty, op, spurious, hin, hout, bad>>
Ret(t) == /\ pc[t] = "ret"
          /\ op' = [op EXCEPT ![t] = Abs!Idle]
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<Ring, lock, todoS, waitFull, waitEmpty, spurious, hin, hout, bad>>

Spurious(t) == /\ spurious < MaxSpurious /\ t \in waitFull \cup waitEmpty
               /\ spurious' = spurious + 1
               /\ pc' = [pc EXCEPT ![t] = Back(t)]
               /\ waitFull' = waitFull \ {t} /\ waitEmpty' = waitEmpty \ {t}
               /\ UNCHANGED <<Ring, lock, todoS, op, hin, hout, bad>>

Step(t) == Start(t) \/ Lock(t) \/ BodyPut(t) \/ BodyTake(t) \/ Grab(t) \/ Unlock(t) \/ Ret(t)
AllDone == \A t \in T : pc[t] = "idle" /\ todoS[t] = <<>>
Next == (\E t \in T : Step(t) \/ Spurious(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : SF_vars(Step(t))

(* ------------------------------ properties ------------------------------ *)
Bounded   == count <= Capacity
Fifo      == hin = hout \o Contents
NoPhantom == ~bad
MutexOK   == \A t, u \in T : pc[t] \in {"body", "unlock", "grab"} /\ pc[u] \in {"body", "unlock", "grab"} => t = u
(* nobody sleeps although the queue could serve every sleeper of that kind *)
Quiet == \A t \in T : pc[t] \in {"idle", "wait", "waitf"}
NoLostWakeup == Quiet => \A t \in T : pc[t] \in {"wait", "waitf"} => Abs!Stuck(t)

AbsCall(t, c) == Abs!Call(t, c[1], c[2], c[3])
AbsNext == \E t \in T :
   \/ \E i \in 1 .. Len(Script[t]) : AbsCall(t, Script[t][i])
   \/ Abs!PutOne(t) \/ Abs!TakeOne(t) \/ Abs!TryMiss(t)
   \/ Abs!Return(t, op[t].got)
Refines == [][AbsNext]_<<Contents, op>>
Finishes == <>AllDone
=============================================================================
