-------------------------------- MODULE MCLoss --------------------------------
(***************************************************************************)
(* What the definitions of module Loss imply, for all labels, margins and    *)
(* pairs of score vectors over a grid: losses are not negative, the gradient *)
(* entries of a multi-class loss sum to zero, the gradient of a convex loss  *)
(* supports it (the loss anywhere is at least its linear estimate), a wrong  *)
(* prediction always has a loss and a zero margin loss means a right one.    *)
(***************************************************************************)
EXTENDS Loss, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MC)
Name == Cfg.name
K == Cfg.K
Grid == {RDec(Cfg.vals[i]) : i \in 1 .. Len(Cfg.vals)}
Margins == {RDec(Cfg.margins[i]) : i \in 1 .. Len(Cfg.margins)}
Labels == IF K = 1 THEN {-1, 1} ELSE 0 .. K - 1
VARIABLES y, m, p, q
Init == y \in Labels /\ m \in Margins /\ p \in [1 .. K -> Grid] /\ q = p
Move(r) == q' = r /\ UNCHANGED <<y, m, p>>
Next == q = p /\ \E r \in [1 .. K -> Grid] : Move(r)
Spec == Init /\ [][Next]_<<y, m, p, q>>
V(s) == s \o <<>>
At(s) == LossOf(Name, y, V(s), m)
Value(s) == RMax(R0, At(s).raw)
Gradient(s) == IF RLT(R0, At(s).raw) THEN At(s).g ELSE [i \in 1 .. K |-> R0] \o <<>>
Convex == Name \in {"hinge", "logistic", "square", "maxscore-hinge", "maxscore-logistic"}
Flat == Name \in {"bool", "maxscore-bool", "uniform-bool"}
Small(a) == RLE(RAbs(a), RDec("1e-9"))
ZeroSum == K > 1 => Small(RSum(Gradient(p)))
Diff == [i \in 1 .. K |-> RSub(q[i], p[i])] \o <<>>
Supports == Convex => RLE(RAdd(Value(p), RDot(Gradient(p), Diff)), RAdd(Value(q), RDec("1e-9")))
NotNegative == RLE(R0, Value(p))
WrongCosts == (LabelOf(V(p)) # y /\ RLT(R0, m)) => RLT(R0, Value(p))
ZeroMeansRight == (Flat \/ Name \in {"hinge", "maxscore-hinge"}) /\ RLT(R0, m) /\ Value(p) = R0 => LabelOf(V(p)) = y
FlatIsCount == Flat => Value(p) = (IF LabelOf(V(p)) = y THEN R0 ELSE R1)
(* towards the label, away from the others *)
Direction == \A i \in 1 .. K :
  IF K = 1 THEN TRUE
  ELSE IF i - 1 = y THEN RLE(Gradient(p)[i], R0) ELSE RLE(R0, Gradient(p)[i])
=============================================================================
