------------------------------- MODULE Learner --------------------------------
(***************************************************************************)
(* The online linear learners: state and the transitions of one training    *)
(* record, of finalisation and of setting a parameter, for all 24 learners.  *)
(*                                                                         *)
(* A model state is a record                                                *)
(*   alg, K (number of score functions), n (dimension incl. bias),           *)
(*   t, t0 (current / initial iteration number), upd (updates made),         *)
(*   w    K weight vectors; position 1 is the bias, position i + 1 feature i  *)
(*   A, H auxiliary vectors per class: gradient sums or the second order      *)
(*        perceptron's v in A; confidences (Sigma, AdaGrad H) in H            *)
(*   X    sums of squares (second order perceptron)                          *)
(*   last time up to which each position has been truncated                  *)
(*   eta  step size in force, k (ALMA update counter), B budget in force      *)
(*   par  parameters                                                        *)
(* All numbers are reals of module Num (doubles).                           *)
(***************************************************************************)
EXTENDS Loss
Algs == {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "fofs", "rda", "rda-l1", "erda-l1",
         "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs"}
OgdLike == {"ogd", "stg", "fobos-l1", "pet"}
RdaLike == {"rda", "rda-l1", "erda-l1"}
AdaFobos == {"ada-fobos", "ada-fobos-l1", "adafobos-ofs"}
AdaRda == {"ada-rda", "ada-rda-l1", "adarda-ofs"}
ArowLike == {"arow", "sofs"}
CwLike == {"cw", "eccw"}
L1Algs == {"stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"}
Select == {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"}
SecondOrderSelect == {"sofs", "adafobos-ofs", "adarda-ofs"}
Rm(a) == RNeg(a)
Sq(a) == RMul(a, a)
Vec(n, a) == [j \in 1 .. n |-> a] \o <<>>
Pos(n) == 1 .. n
DefaultLoss(alg, K) ==
  IF alg \in {"perceptron", "sop"} THEN IF K = 1 THEN "bool" ELSE "maxscore-bool"
  ELSE IF K = 1 THEN "hinge" ELSE "maxscore-hinge"
DefaultPar(alg, K) ==
  [loss |-> DefaultLoss(alg, K), bias |-> R0, lazy |-> FALSE, active |-> FALSE, smooth |-> R0, cost |-> FALSE, costm |-> R1,
   eta |-> R1, power |-> RDec("0.5"), lambda |-> R0, sparse |-> RDec("1e-6"), kper |-> 1,
   C |-> IF alg = "alma2" THEN RSqrt(RInt(2)) ELSE R1, p |-> 2, alpha |-> RDec("0.9"),
   sigma |-> R1, rou |-> R0, a |-> R1, phi |-> RDec("0.5244"), r |-> R1, delta |-> RInt(10), B |-> 0]
InitA(S) == R0
InitH(S) == IF S.alg \in CwLike THEN S.par.a ELSE IF S.alg \in ArowLike THEN R1 ELSE S.par.delta
NewState(alg, K) ==
  [alg |-> alg, K |-> K, n |-> 1, t |-> 0, t0 |-> 0, upd |-> 0,
   w |-> Vec(K, Vec(1, R0)), A |-> Vec(K, Vec(1, R0)),
   H |-> Vec(K, Vec(1, IF alg \in CwLike \cup ArowLike THEN R1 ELSE RInt(10))), X |-> Vec(1, R0),
   last |-> Vec(1, 0), eta |-> R1, k |-> 1, B |-> 0, par |-> DefaultPar(alg, K)]
(* ---- dimension ------------------------------------------------------- *)
Ext(v, n, a) == [j \in Pos(n) |-> IF j <= Len(v) THEN v[j] ELSE a] \o <<>>
ExtAll(vs, n, a) == [c \in Pos(Len(vs)) |-> Ext(vs[c], n, a)] \o <<>>
Grow(S, n) ==
  IF n <= S.n THEN S
  ELSE [S EXCEPT !.n = n, !.w = ExtAll(@, n, R0), !.A = ExtAll(@, n, R0), !.H = ExtAll(@, n, InitH(S)),
                 !.X = Ext(@, n, R0), !.last = Ext(@, n, S.t0)]
(* ---- a record: f, the set of positions present, and x, the dense vector; x[1] = 0 (bias) ---- *)
BiasEta(S) == RMul(S.par.bias, S.eta)
Trunc(v, th) == IF RLT(th, v) THEN RSub(v, th) ELSE IF RLT(v, Rm(th)) THEN RAdd(v, th) ELSE R0
Map2(S, f(_, _)) == [c \in Pos(S.K) |-> [j \in Pos(S.n) |-> f(c, j)] \o <<>>] \o <<>>
(* ---- what is done to the weights before predicting a training record (time t -> t + 1) ---- *)
StgStep(S, j) == LET s == S.t - S.last[j] IN IF s < S.par.kper THEN 0 ELSE s - (s % S.par.kper)
RdaEta(S, t) == IF t = 0 THEN R0
                ELSE IF S.alg = "erda-l1" THEN RDiv(R1, RMul(RSqrt(RInt(t)), S.par.sigma))
                ELSE RDiv(R1, RMul(RInt(t), S.par.sigma))
RdaThresh(S, t) ==
  CASE S.alg = "rda" -> R0
    [] S.alg = "rda-l1" -> RMul(S.par.lambda, RInt(t))
    [] S.alg = "erda-l1" -> RAdd(RMul(S.par.lambda, RInt(t)), RMul(RMul(S.par.sigma, S.par.rou), RSqrt(RInt(t))))
RdaWeight(S, c, j, t) ==
  RMul(Rm(IF j = 1 THEN RMul(S.par.bias, RdaEta(S, t)) ELSE RdaEta(S, t)), Trunc(S.A[c][j], RdaThresh(S, t)))
Amount(S, c, j, steps) ==      \* truncation due for so many steps
  LET a == RMul(RMul(RInt(steps), S.par.lambda), IF j = 1 THEN BiasEta(S) ELSE S.eta)
  IN IF S.alg = "ada-fobos-l1" THEN RDiv(a, S.H[c][j]) ELSE a
AdaRdaWeight(S, c, j, t) ==
  RDiv(RMul(Rm(IF j = 1 THEN BiasEta(S) ELSE S.eta),
            IF S.alg = "ada-rda-l1" THEN Trunc(S.A[c][j], RMul(S.par.lambda, RInt(t))) ELSE S.A[c][j]), S.H[c][j])
Prep(S, f, x) ==
  LET F == f \cup {1} IN
  CASE S.alg = "stg" ->
         [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF j = 1 THEN Trunc(S.w[c][1], Amount(S, c, 1, S.t - S.last[1]))
                                               ELSE IF j \in f THEN Trunc(S.w[c][j], Amount(S, c, j, StgStep(S, j)))
                                               ELSE S.w[c][j]),
                   !.last = [j \in Pos(S.n) |-> IF j = 1 THEN S.t ELSE IF j \in f THEN S.last[j] + StgStep(S, j) ELSE S.last[j]] \o <<>>]
    [] S.alg \in {"fobos-l1", "ada-fobos-l1"} ->
         [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF j \in F THEN Trunc(S.w[c][j], Amount(S, c, j, S.t - S.last[j])) ELSE S.w[c][j]),
                   !.last = [j \in Pos(S.n) |-> IF j \in F THEN S.t ELSE S.last[j]] \o <<>>]
    [] S.alg \in RdaLike ->
         [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF j \in F THEN RdaWeight(S, c, j, S.t) ELSE S.w[c][j])]
    [] S.alg = "sop" ->
         [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF j \in F THEN RDiv(S.A[c][j], RAdd(S.par.a, RAdd(S.X[j], Sq(x[j])))) ELSE S.w[c][j])]
    [] S.alg = "ada-rda-l1" ->
         [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF j \in F THEN AdaRdaWeight(S, c, j, S.t) ELSE S.w[c][j])]
    [] OTHER -> S
(* ---- scores ---- *)
Score(S, x, c) == RAdd(RDot(S.w[c], x), S.w[c][1])
Scale(S, x, c) == RSum([j \in Pos(S.n) |-> RAbs(RMul(S.w[c][j], IF j = 1 THEN R1 ELSE x[j]))] \o <<>>)
(* ---- margin of the hinge loss ---- *)
Variance(S, g, x) ==
  RSum([c \in Pos(S.K) |->
    RMul(Sq(g[c]), RAdd(IF S.par.bias # R0 THEN S.H[c][1] ELSE R0,
                        RSum([j \in Pos(S.n) |-> RMul(S.H[c][j], Sq(x[j]))] \o <<>>)))] \o <<>>)
AlmaMargin(S) == RDiv(RMul(RDiv(RSub(R1, S.par.alpha), S.par.alpha), RSqrt(RInt(S.par.p - 1))), RSqrt(RInt(S.k)))
Margin(S, y, g, x) ==
  CASE S.alg = "cw" -> RMul(S.par.phi, Variance(S, g, x))
    [] S.alg = "eccw" -> RMul(S.par.phi, RSqrt(Variance(S, g, x)))
    [] S.par.cost -> IF y = 1 THEN S.par.costm ELSE R1
    [] S.alg = "alma2" -> AlmaMargin(S)
    [] OTHER -> R1
(* loss and gradient of a record with scores p; the direction does not depend on the margin *)
LossAt(S, y, p, x) ==
  LET d == LossOf(S.par.loss, y, p, R1) IN
  IF S.par.loss \in {"hinge", "maxscore-hinge", "uniform-hinge"}
  THEN LossOf(S.par.loss, y, p, Margin(S, y, d.g, x))
  ELSE d
(* ---- updates: S after Prep, S.t already the new time; g gradient, loss value ---- *)
Sgd(S, eta, g, x) ==       \* w - eta g x, bias with its own step
  [S EXCEPT !.eta = eta,
            !.w = [c \in Pos(S.K) |-> [j \in Pos(S.n) |->
                     RSub(S.w[c][j], RMul(RMul(eta, g[c]), IF j = 1 THEN S.par.bias ELSE x[j]))] \o <<>>] \o <<>>]
Norm(x) == RSum([j \in Pos(Len(x)) |-> Sq(x[j])] \o <<>>)
Shrink(v, m) == LET s == RSqrt(Norm(v)) IN IF RLT(m, s) THEN [j \in Pos(Len(v)) |-> RDiv(RMul(v[j], m), s)] \o <<>> ELSE v
Coeff(S) == RInt(IF S.K = 1 THEN 1 ELSE 2)
Confid(S, g, x, eta, div(_, _, _)) ==   \* w - eta g H x; H / div
  [S EXCEPT !.eta = eta,
            !.w = Map2(S, LAMBDA c, j : RSub(S.w[c][j], RMul(RMul(RMul(eta, g[c]), S.H[c][j]), IF j = 1 THEN S.par.bias ELSE x[j]))),
            !.H = Map2(S, LAMBDA c, j : IF g[c] = R0 THEN S.H[c][j] ELSE RDiv(S.H[c][j], div(c, S.H[c][j], IF j = 1 THEN R1 ELSE Sq(x[j]))))]
CwAlpha(S, V, loss) ==
  LET M == RSub(RMul(S.par.phi, V), loss)
      q == RAdd(R1, RMul(RMul(RInt(2), S.par.phi), M))
      d == RSub(Sq(q), RMul(RMul(RInt(8), S.par.phi), RSub(M, RMul(S.par.phi, V))))
  IN RDiv(RSub(RSqrt(d), q), RMul(RMul(RInt(4), S.par.phi), V))
EccwAlpha(S, V, loss) ==
  LET M == RSub(RMul(S.par.phi, RSqrt(V)), loss)
      p2 == Sq(S.par.phi)
      psi == RAdd(R1, RDiv(p2, RInt(2)))
      xi == RAdd(R1, p2)
      d == RAdd(RDiv(Sq(RMul(M, p2)), RInt(4)), RMul(RMul(V, p2), xi))
  IN RDiv(RAdd(RMul(Rm(M), psi), RSqrt(d)), RMul(V, xi))
(* square root of u.  The algorithm's paper divides by it in the confidence update where the library multiplies:  *)
(* the library's form is the one specified, the other underflows to nothing on records that contradict each other. *)
EccwU(S, V, al) ==
  RMul(Half, RAdd(RMul(RMul(Rm(al), V), S.par.phi), RSqrt(RAdd(Sq(RMul(RMul(al, V), S.par.phi)), RMul(RInt(4), V)))))
AdaH(S, g, x) ==
  Map2(S, LAMBDA c, j : IF g[c] = R0 THEN S.H[c][j]
                        ELSE RAdd(RSqrt(RAdd(Sq(RSub(S.H[c][j], S.par.delta)), Sq(RMul(g[c], IF j = 1 THEN R1 ELSE x[j])))), S.par.delta))
SumGrad(S, g, x) == Map2(S, LAMBDA c, j : RAdd(S.A[c][j], RMul(g[c], IF j = 1 THEN R1 ELSE x[j])))
StepSize(S) == RDiv(S.par.eta, RPow(RInt(S.t), S.par.power))
Update(S, f, x, g, loss) ==
  CASE S.alg = "perceptron" -> Sgd(S, R1, g, x)
    [] S.alg \in OgdLike -> Sgd(S, StepSize(S), g, x)
    [] S.alg = "pa" -> IF Norm(x) = R0 THEN S ELSE Sgd(S, RDiv(loss, RMul(Coeff(S), Norm(x))), g, x)
    [] S.alg = "pa1" -> Sgd(S, IF Norm(x) = R0 THEN S.par.C ELSE RMin(S.par.C, RDiv(loss, RMul(Coeff(S), Norm(x)))), g, x)
    [] S.alg = "pa2" -> Sgd(S, RDiv(loss, RAdd(RMul(Coeff(S), Norm(x)), RDiv(Half, S.par.C))), g, x)
    [] S.alg = "alma2" ->
         LET U == Sgd(S, RDiv(S.par.C, RMul(RSqrt(RInt(S.par.p - 1)), RSqrt(RInt(S.k)))), g, x)
         IN [U EXCEPT !.w = [c \in Pos(S.K) |-> IF g[c] = R0 THEN U.w[c] ELSE Shrink(U.w[c], R1)] \o <<>>, !.k = S.k + 1]
    [] S.alg = "fofs" ->
         LET keep == RSub(R1, RMul(S.par.lambda, S.par.eta))
             V == [S EXCEPT !.w = Map2(S, LAMBDA c, j : IF g[c] = R0 THEN S.w[c][j] ELSE RMul(keep, S.w[c][j]))]
             U == Sgd(V, S.par.eta, g, x)
         IN [U EXCEPT !.w = [c \in Pos(S.K) |-> IF g[c] = R0 \/ S.par.lambda = R0 THEN U.w[c]
                                                ELSE Shrink(U.w[c], RDiv(R1, RSqrt(S.par.lambda)))] \o <<>>]
    [] S.alg \in RdaLike -> [S EXCEPT !.A = SumGrad(S, g, x)]
    [] S.alg = "sop" ->
         [S EXCEPT !.A = Map2(S, LAMBDA c, j : RSub(S.A[c][j], RMul(g[c], IF j = 1 THEN S.par.bias ELSE x[j]))),
                   !.X = [j \in Pos(S.n) |-> RAdd(S.X[j], Sq(x[j]))] \o <<>>]
    [] S.alg = "cw" ->
         IF Variance(S, g, x) = R0 THEN S
         ELSE LET V == Variance(S, g, x)
                  al == CwAlpha(S, V, loss)
                  q == RMul(RMul(RInt(2), al), S.par.phi)
              IN Confid(S, g, x, al, LAMBDA c, h, v : RAdd(R1, RMul(RMul(q, h), v)))
    [] S.alg = "eccw" ->
         IF Variance(S, g, x) = R0 THEN S
         ELSE LET V == Variance(S, g, x)
                  al == EccwAlpha(S, V, loss)
                  q == RMul(RMul(al, S.par.phi), EccwU(S, V, al))
              IN Confid(S, g, x, al, LAMBDA c, h, v : RAdd(R1, RMul(RMul(q, h), v)))
    [] S.alg \in ArowLike ->
         LET al == RDiv(loss, RAdd(Variance(S, g, x), S.par.r))
         IN Confid(S, g, x, al, LAMBDA c, h, v : RAdd(R1, RDiv(RMul(RMul(h, v), Sq(g[c])), S.par.r)))
    [] S.alg \in AdaFobos ->
         LET h == AdaH(S, g, x)
         IN [S EXCEPT !.H = h,
                      !.w = Map2(S, LAMBDA c, j : RSub(S.w[c][j], RDiv(RMul(RMul(S.eta, g[c]), IF j = 1 THEN S.par.bias ELSE x[j]), h[c][j])))]
    [] S.alg \in AdaRda ->
         LET V == [S EXCEPT !.H = AdaH(S, g, x), !.A = SumGrad(S, g, x)]
         IN [V EXCEPT !.w = Map2(S, LAMBDA c, j : IF g[c] # R0 /\ j \in f \cup {1}
                                                  THEN RDiv(RMul(Rm(IF j = 1 THEN BiasEta(S) ELSE S.eta), V.A[c][j]), V.H[c][j])
                                                  ELSE S.w[c][j])]
(* ---- finalisation: every position brought up to date, tiny weights of L1 learners dropped ---- *)
(* (the dropping is in Dropped, applied after) *)
Snap(S, v) == IF RLT(RAbs(v), S.par.sparse) THEN R0 ELSE v
Dropped(U) == IF U.alg \in L1Algs THEN [U EXCEPT !.w = Map2(U, LAMBDA c, j : Snap(U, U.w[c][j]))] ELSE U
Final(S) ==
  LET U == CASE S.alg \in {"stg", "fobos-l1", "ada-fobos-l1"} ->
                  [S EXCEPT !.w = Map2(S, LAMBDA c, j : Trunc(S.w[c][j], Amount(S, c, j, S.t - S.last[j]))), !.last = Vec(S.n, S.t)]
             [] S.alg \in RdaLike -> [S EXCEPT !.w = Map2(S, LAMBDA c, j : RdaWeight(S, c, j, S.t))]
             [] S.alg = "sop" -> [S EXCEPT !.w = Map2(S, LAMBDA c, j : RDiv(S.A[c][j], RAdd(S.par.a, S.X[j])))]
             [] S.alg \in AdaRda -> [S EXCEPT !.w = Map2(S, LAMBDA c, j : AdaRdaWeight(S, c, j, S.t))]
             [] OTHER -> S
  IN U
(* ---- feature selection: how good a position is; larger is better ---- *)
Good(S, j) ==
  LET s == RSum([c \in Pos(S.K) |-> IF S.alg \in SecondOrderSelect THEN S.H[c][j] ELSE RAbs(S.w[c][j])] \o <<>>)
  IN IF S.alg = "sofs" THEN Rm(s) ELSE s
(* ---- parameters ---- *)
SetPar(S, name, val) ==
  LET v == RDec(val) IN
  CASE name = "loss" -> [S EXCEPT !.par.loss = val]
    [] name = "bias_eta" -> [S EXCEPT !.par.bias = v]
    [] name = "lazy_update" -> [S EXCEPT !.par.lazy = (val = "true")]
    [] name = "active_smoothness" -> [S EXCEPT !.par.active = TRUE, !.par.smooth = v]
    [] name = "cost_margin" -> [S EXCEPT !.par.cost = TRUE, !.par.costm = v]
    [] name = "power_t" -> [S EXCEPT !.par.power = v]
    [] name = "eta" -> IF S.alg \in AdaFobos \cup AdaRda \cup {"fofs"} THEN [S EXCEPT !.par.eta = v, !.eta = v] ELSE [S EXCEPT !.par.eta = v]
    [] name = "cur_eta" -> [S EXCEPT !.eta = v]
    [] name = "lambda" -> IF S.alg \in Select \ {"fofs"} THEN [S EXCEPT !.par.B = RFloor(v)] ELSE [S EXCEPT !.par.lambda = v]
    [] name = "B" -> [S EXCEPT !.par.B = RFloor(v)]
    [] name = "sparse_thresh" -> [S EXCEPT !.par.sparse = v]
    [] name = "k" -> IF S.alg = "alma2" THEN [S EXCEPT !.k = RFloor(v)] ELSE [S EXCEPT !.par.kper = RFloor(v)]
    [] name = "C" -> [S EXCEPT !.par.C = v]
    [] name = "p" -> [S EXCEPT !.par.p = RFloor(v)]
    [] name = "alpha" -> [S EXCEPT !.par.alpha = v]
    [] name = "sigma" -> [S EXCEPT !.par.sigma = v]
    [] name = "rou" -> [S EXCEPT !.par.rou = v]
    [] name = "a" -> IF S.alg \in CwLike THEN [S EXCEPT !.par.a = v, !.H = [c \in Pos(S.K) |-> Vec(S.n, v)] \o <<>>] ELSE [S EXCEPT !.par.a = v]
    [] name = "phi" -> [S EXCEPT !.par.phi = v]
    [] name = "r" -> [S EXCEPT !.par.r = v]
    [] name = "delta" -> [S EXCEPT !.par.delta = v, !.H = [c \in Pos(S.K) |-> Vec(S.n, v)] \o <<>>]
    [] name = "t" -> [S EXCEPT !.t = RFloor(v), !.t0 = RFloor(v), !.last = Vec(S.n, RFloor(v))]
    [] OTHER -> S
=============================================================================
