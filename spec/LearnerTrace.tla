----------------------------- MODULE LearnerTrace -----------------------------
(***************************************************************************)
(* Recorded training runs of the real learners against module Learner.      *)
(* Scores and weights are compared after every record; the observed weights  *)
(* (single precision) then replace the specified ones, hidden state is kept. *)
(***************************************************************************)
EXTENDS Learner, TraceKit
VARIABLES S,
  act    \* active learning: records trained on, and mean and variance of that number
tvars == <<tid, l, S, act>>
Obs(w) == [c \in Pos(Len(w)) |-> [j \in Pos(Len(w[c])) |-> RBits(w[c][j])] \o <<>>] \o <<>>
Wide(w) == Len(w[1])
FeatSet(e) == {e.i[k] + 1 : k \in 1 .. Len(e.i)}
Dense(e, n) == [j \in Pos(n) |-> IF j \in FeatSet(e) THEN RBits(e.v[CHOOSE k \in 1 .. Len(e.i) : e.i[k] + 1 = j]) ELSE R0] \o <<>>
Tol(scale) == RAdd(RDec(Tr.abs), RMul(RDec(Tr.rel), scale))
Near(a, b, scale) == RLE(RAbs(RSub(a, b)), Tol(scale))
Big(v) == RAdd(RAbs(v), RDec("0.05"))
(* o: the weights before the step, whose rounding errors remain where the step cancels them *)
Left(o, c, j) == IF j <= Len(o[c]) THEN RMul(RDec("0.02"), RAbs(o[c][j])) ELSE R0
SameFrom(o, w, u) == \A c \in Pos(Len(w)) : \A j \in Pos(Len(w[c])) : Near(w[c][j], u[c][j], RMax(RMax(Big(w[c][j]), Big(u[c][j])), Left(o, c, j)))
SameW(w, u) == \A c \in Pos(Len(w)) : \A j \in Pos(Len(w[c])) : Near(w[c][j], u[c][j], RMax(Big(w[c][j]), Big(u[c][j])))
ZeroAt(w, j) == \A c \in Pos(Len(w)) : w[c][j] = R0
SameAt(w, u, j) == \A c \in Pos(Len(w)) : Near(w[c][j], u[c][j], RMax(Big(w[c][j]), Big(u[c][j])))
(* u: specified state before selection; w: observed weights. B features with the best score survive. *)
Better(U, i, j) == RLT(RAdd(Good(U, j), Tol(Big(Good(U, j)))), Good(U, i))      \* i clearly better than j
NoWorse(U, i, j) == RLE(Good(U, j), RAdd(Good(U, i), Tol(Big(Good(U, j)))))
Selected(U, w) ==
  LET B == U.B
      D == 2 .. U.n
      Kept == {j \in D : ~ZeroAt(w, j)}
  IN /\ \A c \in Pos(U.K) : Near(w[c][1], U.w[c][1], Big(U.w[c][1]))
     /\ \A j \in D : IF ZeroAt(w, j) THEN TRUE ELSE SameAt(w, U.w, j)
     /\ Cardinality(Kept) <= B
     /\ \A j \in D :
          IF ZeroAt(w, j)
          THEN IF SameAt(w, U.w, j) THEN TRUE ELSE Cardinality({i \in D \ {j} : NoWorse(U, i, j)}) >= B
          ELSE Cardinality({i \in D \ {j} : Better(U, i, j)}) < B
MatchFrom(o, U, w) == IF U.alg \in Select /\ U.B > 0 THEN Selected(U, w) ELSE SameFrom(o, w, U.w)
Match(U, w) == IF U.alg \in Select /\ U.B > 0 THEN Selected(U, w) ELSE SameW(w, U.w)
(* after finalisation: weights below the sparsity threshold of an L1 learner are zero; close to it, either way *)
AtEdge(U, v) == Near(RAbs(v), U.par.sparse, RAdd(RAbs(v), Half))
FinalMatch(U, w) ==
  IF U.alg \in L1Algs
  THEN \A c \in Pos(Len(w)) : \A j \in Pos(Len(w[c])) :
         \E s \in {Snap(U, U.w[c][j])} :
           IF AtEdge(U, U.w[c][j]) THEN IF w[c][j] = R0 THEN TRUE ELSE Near(w[c][j], U.w[c][j], Big(U.w[c][j]))
           ELSE Near(w[c][j], s, RMax(Big(w[c][j]), Big(s)))
  ELSE Match(U, w)
Finite(w) == \A c \in Pos(Len(w)) : \A j \in Pos(Len(w[c])) : RFinite(w[c][j])
TraceInit == KitInit /\ S = NewState("ogd", 1) /\ act = [n |-> 0, mu |-> R0, var |-> R0]
TNew ==
  /\ Is("new") /\ Step /\ UNCHANGED act
  /\ E.ok /\ E.it = 0 /\ E.upd = 0
  /\ S' = [NewState(E.alg, IF E.cls = 2 THEN 1 ELSE E.cls) EXCEPT !.n = 1]
  /\ Len(E.w) = (IF E.cls = 2 THEN 1 ELSE E.cls)
  /\ \A c \in Pos(Len(E.w)) : \A j \in Pos(Len(E.w[c])) : RBits(E.w[c][j]) = R0
TSet ==
  /\ Is("set") /\ Step /\ UNCHANGED act
  /\ E.st = 0
  /\ S' = SetPar(Grow(S, Wide(E.w)), E.name, E.val)
(* training may start with selecting features anew *)
TBegin ==
  /\ Is("begin") /\ Step /\ UNCHANGED act
  /\ E.it = S.t /\ E.upd = S.upd
  /\ \E U \in {[Grow(S, Wide(E.w)) EXCEPT !.B = S.par.B]} : \E w \in {Obs(E.w)} : Match(U, w) /\ S' = [U EXCEPT !.w = w]
(* confidence: distance of the best score from the decision; probability of training on the record *)
Confidence(p, lab) == IF Len(p) = 1 THEN RAbs(p[1]) ELSE RSub(p[lab + 1], p[Best(p, Others(p, lab)) + 1])
Query(p, lab) == RDiv(S.par.smooth, RAdd(S.par.smooth, Confidence(p, lab)))
MaySkip(q) == RLT(q, RDec("0.9999999"))
MustSkip(q) == RLT(q, RDec("1e-8"))
Count(d, q) == IF S.par.active THEN [n |-> act.n + d, mu |-> RAdd(act.mu, q), var |-> RAdd(act.var, RMul(q, RSub(R1, q)))] ELSE act
Tie(raw, loss) == RLT(RAbs(raw), RDec("1e-5"))
TLearn ==
  /\ Is("learn") /\ Step
  /\ Wide(E.w) >= S.n
  /\ \A j \in FeatSet(E) : j <= Wide(E.w)
  /\ \E U0 \in {Grow(S, Wide(E.w))} : \E x \in {Dense(E, Wide(E.w))} : \E w \in {Obs(E.w)} :
     \E p \in {[c \in Pos(Len(E.p)) |-> RBits(E.p[c])] \o <<>>} :
     \E U1 \in {Prep(U0, FeatSet(E), x)} :
     /\ Finite(w)
     /\ \A c \in Pos(S.K) : Near(p[c], Score(U1, x, c), RAdd(Scale(U1, x, c), RDec("0.05")))
     /\ E.lab = LabelOf(p)
     /\ \/ /\ S.par.active /\ E.it = S.t /\ E.upd = S.upd       \* passed over by active learning
           /\ MaySkip(Query(p, E.lab)) /\ act' = Count(0, Query(p, E.lab))
           /\ Match(U1, w)
           /\ S' = [U1 EXCEPT !.w = w]
        \/ /\ E.it = S.t + 1
           /\ IF S.par.active THEN ~MustSkip(Query(p, E.lab)) /\ act' = Count(1, Query(p, E.lab)) ELSE act' = act
           /\ \E U2 \in {[U1 EXCEPT !.t = S.t + 1]} :
              \E L \in {LossAt(U1, E.y, p, x)} :
              \E up \in {IF S.par.lazy THEN {E.lab # E.y}
                         ELSE IF Tie(L.raw, S.par.loss) THEN BOOLEAN ELSE {RLT(R0, L.raw)}} :
              \E d \in up :
              /\ E.upd = S.upd + (IF d THEN 1 ELSE 0)
              /\ \E gr \in {IF Tie(L.raw, 0) THEN {L.g, Vec(S.K, R0)} ELSE IF RLT(R0, L.raw) THEN {L.g} ELSE {Vec(S.K, R0)}} :
                 \E g \in gr :
                 \E U3 \in {IF d THEN [Update(U2, FeatSet(E), x, g, RMax(R0, L.raw)) EXCEPT !.upd = S.upd + 1] ELSE U2} :
                   /\ IF d THEN MatchFrom(S.w, U3, w) ELSE SameW(w, U3.w)
                   /\ S' = [U3 EXCEPT !.w = w]
TFinal ==
  /\ Is("final") /\ Step /\ UNCHANGED act
  /\ E.it = S.t /\ E.upd = S.upd
  /\ \E U \in {Final(Grow(S, Wide(E.w)))} : \E w \in {Obs(E.w)} : Finite(w) /\ FinalMatch(U, w) /\ S' = [U EXCEPT !.w = w]
(* saved (finalised first) and loaded again: the same model *)
Six(a, b) == Dec6(a, b)
TReload ==
  /\ Is("reload") /\ Step /\ UNCHANGED act
  /\ E.st = 0 /\ E.ok /\ E.alg = S.alg /\ E.K = S.K
  /\ E.was.it = S.t /\ E.it = S.t /\ E.was.upd = S.upd
  /\ Wide(E.w) = Wide(E.was.w)
  /\ \A c \in Pos(S.K) : \A j \in Pos(Wide(E.w)) : Six(E.was.w[c][j], E.w[c][j])
  /\ E.par = E.was.par
  /\ \E U \in {Final(Grow(S, Wide(E.w)))} : \E w \in {Obs(E.w)} :
       Finite(w) /\ FinalMatch(U, w) /\ S' = [U EXCEPT !.w = w, !.t0 = S.t, !.last = Vec(U.n, S.t), !.upd = E.upd]
(* saving finalises, reports success and leaves a model that goes on as before *)
TSave ==
  /\ Is("save") /\ Step /\ UNCHANGED act
  /\ E.st = 0 /\ E.it = S.t /\ E.upd = S.upd
  /\ \E U \in {Final(Grow(S, Wide(E.w)))} : \E w \in {Obs(E.w)} : Finite(w) /\ FinalMatch(U, w) /\ S' = [U EXCEPT !.w = w]
TPred ==
  /\ Is("pred") /\ Step /\ UNCHANGED <<S, act>>
  /\ E.it = S.t /\ E.upd = S.upd
  /\ Obs(E.w) = S.w
  /\ \E n \in {IF \E j \in FeatSet(E) : j > S.n THEN CHOOSE m \in FeatSet(E) : \A j \in FeatSet(E) : j <= m ELSE S.n} :
     \E x \in {Dense(E, n)} : \E p \in {[c \in Pos(Len(E.p)) |-> RBits(E.p[c])] \o <<>>} :
       /\ \A c \in Pos(S.K) : Near(p[c], Score(Grow(S, n), x, c), RAdd(Scale(Grow(S, n), x, c), RDec("0.05")))
       /\ E.lab = LabelOf(p)
(* cost-sensitive learning with another loss than the hinge loss: training is refused *)
TTry ==
  /\ Is("try") /\ Step /\ UNCHANGED <<S, act>>
  /\ S.par.cost /\ S.par.loss # "hinge"
  /\ E.cb = <<>> /\ E.it = S.t /\ E.upd = S.upd /\ Obs(E.w) = S.w
(* the number of records trained on is within seven standard deviations of its mean *)
TEnd ==
  /\ Ended /\ UNCHANGED <<S, act>>
  /\ RLE(RAbs(RSub(RInt(act.n), act.mu)), RAdd(RDec("3"), RMul(RDec("7"), RSqrt(act.var))))
TraceNext == TNew \/ TSet \/ TBegin \/ TLearn \/ TFinal \/ TReload \/ TSave \/ TPred \/ TTry \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
