-------------------------------- MODULE Loss ---------------------------------
(***************************************************************************)
(* The losses: value and gradient with respect to each class score.         *)
(* Scores are sequences of reals (module Num); a binary problem has one      *)
(* score and labels 1 and -1, a multi-class problem labels 0 .. K-1.         *)
(* LossOf yields [raw, g]: the loss is Max(0, raw); where it is positive the *)
(* gradient is g, else the zero vector (no update).                          *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC
R0 == RInt(0)
R1 == RInt(1)
Rm1 == RInt(-1)
Half == RDiv(R1, RInt(2))
(* sign of a score, ties positive *)
Sign(p) == IF RLT(p, R0) THEN -1 ELSE 1
(* the first class (from 0) with the largest score among C *)
Best(p, C) == CHOOSE i \in C : \A j \in C : RLT(p[j + 1], p[i + 1]) \/ (RLE(p[j + 1], p[i + 1]) /\ i <= j)
LabelOf(p) == IF Len(p) = 1 THEN Sign(p[1]) ELSE Best(p, 0 .. Len(p) - 1)
Others(p, y) == (0 .. Len(p) - 1) \ {y}
(* classes scored at least as high as the label *)
Rivals(p, y) == {i \in Others(p, y) : RLE(p[y + 1], p[i + 1])}
LogOne(z) == IF RLT(RInt(100), z) THEN z ELSE IF RLT(z, RInt(-100)) THEN R0 ELSE RLog(RAdd(R1, RExp(z)))
Logit(z) == IF RLT(RInt(100), z) THEN R1 ELSE IF RLT(z, RInt(-100)) THEN R0 ELSE RDiv(R1, RAdd(R1, RExp(RNeg(z))))
(* pair: +a for the rivals (each), -b for the label *)
Grad(n, F, y, a, b) == [i \in 1 .. n |-> IF i - 1 = y THEN RNeg(b) ELSE IF i - 1 \in F THEN a ELSE R0] \o <<>>
Average(p, F) == RDiv(RSum([k \in 1 .. Len(p) |-> IF k - 1 \in F THEN p[k] ELSE R0] \o <<>>), RInt(Cardinality(F)))
Binary(name, y, p, margin) ==
  CASE name = "bool" -> [raw |-> IF Sign(p[1]) # y THEN R1 ELSE Rm1, g |-> <<RInt(-y)>>]
    [] name = "hinge" -> [raw |-> RSub(margin, RMul(p[1], RInt(y))), g |-> <<RInt(-y)>>]
    [] name = "logistic" ->
         [raw |-> LogOne(RMul(p[1], RInt(-y))), g |-> <<RMul(RInt(-y), Logit(RMul(p[1], RInt(-y))))>>]
    [] name = "square" ->
         [raw |-> RMul(Half, RMul(RSub(p[1], RInt(y)), RSub(p[1], RInt(y)))), g |-> <<RSub(p[1], RInt(y))>>]
MaxScore(kind, y, p, margin) ==
  LET n == Len(p)
      o == Best(p, Others(p, y))
      z == RSub(p[o + 1], p[y + 1])
  IN CASE kind = "bool" -> [raw |-> IF LabelOf(p) # y THEN R1 ELSE Rm1, g |-> Grad(n, {o}, y, R1, R1)]
       [] kind = "hinge" -> [raw |-> RAdd(margin, z), g |-> Grad(n, {o}, y, R1, R1)]
       [] kind = "logistic" -> [raw |-> LogOne(z), g |-> Grad(n, {o}, y, Logit(z), Logit(z))]
Uniform(kind, y, p, margin) ==
  LET n == Len(p)
      F == Rivals(p, y)
      m == RInt(Cardinality(F))
      z == RSub(Average(p, F), p[y + 1])
  IN IF F = {} \/ (kind = "bool" /\ LabelOf(p) = y)
     THEN [raw |-> Rm1, g |-> Grad(n, {}, y, R0, R0)]
     ELSE CASE kind = "bool" -> [raw |-> R1, g |-> Grad(n, F, y, RDiv(R1, m), R1)]
            [] kind = "hinge" -> [raw |-> RAdd(margin, z), g |-> Grad(n, F, y, RDiv(R1, m), R1)]
            [] kind = "logistic" -> [raw |-> LogOne(z), g |-> Grad(n, F, y, RDiv(Logit(z), m), Logit(z))]
LossOf(name, y, p, margin) ==
  CASE name = "maxscore-bool" -> MaxScore("bool", y, p, margin)
    [] name = "maxscore-hinge" -> MaxScore("hinge", y, p, margin)
    [] name = "maxscore-logistic" -> MaxScore("logistic", y, p, margin)
    [] name = "uniform-bool" -> Uniform("bool", y, p, margin)
    [] name = "uniform-hinge" -> Uniform("hinge", y, p, margin)
    [] name = "uniform-logistic" -> Uniform("logistic", y, p, margin)
    [] OTHER -> Binary(name, y, p, margin)
=============================================================================
