-------------------------------- MODULE Alone ---------------------------------
(***************************************************************************)
(* Several objects (models, iterators) used in one process.  A call to an   *)
(* object has two halves: it puts what it works on into a work area and     *)
(* then folds it into its state; an object may keep a work area from one    *)
(* call to the next (Carry).  Each object must end as if it had been alone.  *)
(*   Area  "own"    every object has its own work area                       *)
(*         "shared" one work area for all (negative control)                 *)
(*   Whole TRUE: calls do not overlap (one thread); FALSE: they may           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS N, Len0, Area, Whole, Carry
VARIABLES done, state, work, inside
vars == <<done, state, work, inside>>
Objs == 1 .. N
Slot(o) == IF Area = "own" THEN o ELSE 1
Input(o, k) == (10 * o + k) % 7
Fold(s, w) == (3 * s + w) % 101
Held(o) == IF Carry THEN work[Slot(o)] ELSE 0
RECURSIVE After(_, _), WorkAfter(_, _)
WorkAfter(o, k) == IF k = 0 THEN 0 ELSE (IF Carry THEN WorkAfter(o, k - 1) ELSE 0) + Input(o, k)
After(o, k) == IF k = 0 THEN 0 ELSE Fold(After(o, k - 1), WorkAfter(o, k))
Init == /\ done = [o \in Objs |-> 0] /\ state = [o \in Objs |-> 0]
        /\ work = [o \in Objs |-> 0] /\ inside = {}
Enter(o) == /\ o \notin inside /\ done[o] < Len0
            /\ Whole => inside = {}
            /\ inside' = inside \cup {o}
            /\ work' = [work EXCEPT ![Slot(o)] = Held(o) + Input(o, done[o] + 1)]
            /\ UNCHANGED <<done, state>>
Leave(o) == /\ o \in inside /\ inside' = inside \ {o}
            /\ state' = [state EXCEPT ![o] = Fold(@, work[Slot(o)])]
            /\ done' = [done EXCEPT ![o] = @ + 1] /\ UNCHANGED work
Next == \E o \in Objs : Enter(o) \/ Leave(o)
Spec == Init /\ [][Next]_vars
AsAlone == \A o \in Objs : state[o] = After(o, done[o])
=============================================================================
