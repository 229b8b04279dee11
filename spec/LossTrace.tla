------------------------------ MODULE LossTrace -------------------------------
(***************************************************************************)
(* Recorded evaluations of the real losses against module Loss.             *)
(***************************************************************************)
EXTENDS Loss, TraceKit
tvars == <<tid, l>>
Reals(s) == [k \in 1 .. Len(s) |-> RBits(s[k])] \o <<>>
MaxAbs(s) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN R1 ELSE RMax(M(k - 1), RAbs(s[k])) IN M(Len(s))
Close(a, b, scale) == RLE(RAbs(RSub(a, b)), RMul(RDec("2e-6"), RAdd(scale, RAdd(RAbs(a), RAbs(b)))))
Zero(g) == \A k \in 1 .. Len(g) : g[k] = R0
(* rounding of large scores makes the unsaturated logistic gradient uncertain *)
Logistic == {"logistic", "maxscore-logistic", "uniform-logistic"}
GradTol(raw, sc) == IF E.lname \in Logistic /\ RLE(raw, RAdd(RInt(50), RMul(RDec("1e-5"), sc)))
                    THEN RAdd(RDec("2e-6"), RMul(RDec("1e-6"), sc)) ELSE RDec("2e-6")
SameGrad(a, b, tol) == RLE(RAbs(RSub(a, b)), RAdd(tol, RMul(RDec("1e-5"), RAbs(b))))
TraceInit == KitInit
(* E.l, E.l2: value returned by the loss and by the gradient call *)
TLoss ==
  /\ Is("loss") /\ Step
  /\ IF E.known THEN E.ok /\ E.kept ELSE ~E.ok
  /\ IF E.known
     THEN \E s \in {Reals(E.s)} : \E g \in {Reals(E.g)} :
          \E L \in {LossOf(E.lname, E.y, s, RBits(E.m))} : \E sc \in {MaxAbs(s)} :
          \E want \in {RMax(R0, L.raw)} :
          /\ RFinite(RBits(E.l)) /\ RFinite(RBits(E.l2))
          /\ \A k \in 1 .. Len(g) : RFinite(g[k])
          /\ IF E.lname = "square" THEN RNear(RBits(E.l), want, "1e-5", "1e-12") /\ RNear(RBits(E.l2), want, "1e-5", "1e-12")
             ELSE Close(RBits(E.l), want, sc) /\ Close(RBits(E.l2), want, sc)
          /\ IF Close(L.raw, R0, sc) THEN \A k \in 1 .. Len(g) : IF g[k] = R0 THEN TRUE ELSE SameGrad(g[k], L.g[k], GradTol(L.raw, sc))
             ELSE IF RLT(L.raw, R0) THEN Zero(g)
             ELSE \A k \in 1 .. Len(g) : SameGrad(g[k], L.g[k], GradTol(L.raw, sc))
          /\ IF Len(g) > 1 THEN RNear(RSum(g), R0, "0", "3e-6") ELSE TRUE
     ELSE TRUE
TEnd == Ended
TraceNext == TLoss \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
