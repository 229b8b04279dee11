------------------------------ MODULE ModelTrace ------------------------------
(***************************************************************************)
(* Using a model: preprocessing of records, scores and predicted classes,   *)
(* testing and predicting data sets, sparsity.  Training itself is opaque    *)
(* here (module Learner): the weights it leaves are taken as observed.       *)
(***************************************************************************)
EXTENDS Loss, TraceKit
VARIABLES
  K,      \* number of score functions
  norm,   \* "None", "L1" or "L2"
  sel,    \* selected features: <<>> (all) or <<set>>
  w,      \* weights, float bits per class; position 1 is the bias
  fresh   \* trained since the weights were last brought up to date
tvars == <<tid, l, K, norm, sel, w, fresh>>
TraceInit == KitInit /\ K = 1 /\ norm = "None" /\ sel = <<>> /\ w = <<>> /\ fresh = FALSE
Reals(s) == [k \in 1 .. Len(s) |-> RBits(s[k])] \o <<>>
(* ---- preprocessing: label, then filter, then norm; r = [y, i, v], v reals ---- *)
Calibrated(y) == IF K = 1 THEN IF y = 1 THEN 1 ELSE -1 ELSE y
Filtered(i, v) == [k \in 1 .. Len(i) |-> IF sel = <<>> \/ i[k] \in sel[1] THEN v[k] ELSE R0] \o <<>>
Length(v) == CASE norm = "None" -> R1
               [] norm = "L1" -> RSum([k \in 1 .. Len(v) |-> RAbs(v[k])] \o <<>>)
               [] norm = "L2" -> RSqrt(RSum([k \in 1 .. Len(v) |-> RMul(v[k], v[k])] \o <<>>))
Scaled(v) == LET len == Length(v) IN IF len = R0 THEN v ELSE [k \in 1 .. Len(v) |-> RDiv(v[k], len)] \o <<>>
Ready(i, v) == Scaled(Filtered(i, Reals(v)))
(* ---- scores ---- *)
Weight(u, c, ix) == IF ix + 1 <= Len(u[c]) THEN RBits(u[c][ix + 1]) ELSE R0
Score(u, c, i, v) == RAdd(RBits(u[c][1]), RSum([k \in 1 .. Len(i) |-> RMul(Weight(u, c, i[k]), v[k])] \o <<>>))
Spread(u, c, i, v) == RAdd(RAbs(RBits(u[c][1])), RSum([k \in 1 .. Len(i) |-> RAbs(RMul(Weight(u, c, i[k]), v[k]))] \o <<>>))
SameScore(p, u, c, i, v) == RLE(RAbs(RSub(p, Score(u, c, i, v))), RAdd(RDec("1e-30"), RMul(RDec(Tr.rel), Spread(u, c, i, v))))
Scores(p, u, i, v) == \A c \in 1 .. K : RFinite(p[c]) /\ SameScore(p[c], u, c, i, v)
TNew ==
  /\ Is("new") /\ Step /\ E.ok
  /\ K' = (IF E.cls = 2 THEN 1 ELSE E.cls) /\ E.K = K'
  /\ norm' = (IF E.alg = "alma2" THEN "L2" ELSE "None") /\ sel' = <<>> /\ w' = E.w /\ fresh' = FALSE
TSet ==
  /\ Is("set") /\ Step
  /\ IF E.name = "filter" /\ Tr.filters[E.val] = <<>> THEN E.st # 0 ELSE E.st = 0
  /\ norm' = (IF E.name = "norm" THEN E.val ELSE norm)
  /\ sel' = (IF E.name = "filter" /\ E.st = 0 THEN <<{Tr.filters[E.val][k] : k \in 1 .. Len(Tr.filters[E.val])}>> ELSE sel)
  /\ E.w = w
  /\ UNCHANGED <<K, w, fresh>>
(* training *)
TTrain ==
  /\ (Is("learn") \/ Is("train") \/ Is("begin")) /\ Step
  /\ w' = E.w /\ fresh' = TRUE /\ UNCHANGED <<K, norm, sel>>
TFinal ==
  /\ Is("final") /\ Step
  /\ IF fresh THEN TRUE ELSE E.w = w
  /\ w' = E.w /\ fresh' = FALSE /\ UNCHANGED <<K, norm, sel>>
TReload ==
  /\ Is("reload") /\ Step /\ E.ok /\ E.st = 0
  /\ w' = E.w /\ fresh' = FALSE /\ sel' = <<>> /\ UNCHANGED <<K, norm>>
TPrep ==
  /\ Is("prep") /\ Step
  /\ E.ry = Calibrated(E.y)
  /\ E.r.i = E.i
  /\ \E a \in {Ready(E.i, E.v)} : \A k \in 1 .. Len(E.i) : RNear(RBits(E.r.v[k]), a[k], "3e-6", "1e-37")
  /\ UNCHANGED <<K, norm, sel, w, fresh>>
(* scores of a record as it is *)
TPred ==
  /\ Is("pred") /\ Step
  /\ E.w = w
  /\ \E p \in {Reals(E.p)} : Scores(p, w, E.i, Reals(E.v)) /\ E.lab = LabelOf(p)
  /\ UNCHANGED <<K, norm, sel, w, fresh>>
(* rows of a test or prediction: label, predicted class, scores.  In a test report the scores are printed with six *)
(* digits, so the class is judged by the row's scores only where they differ. *)
RowOf(row, s, exact) ==
  \E p \in {Reals(row[3])} : \E v \in {Ready(s.i, s.v)} :
    /\ row[1] = Calibrated(s.y)
    /\ Scores(p, E.w, s.i, v)
    /\ IF exact THEN row[2] = LabelOf(p)
       ELSE IF K = 1 THEN IF p[1] = R0 THEN row[2] \in {1, -1} ELSE row[2] = LabelOf(p)
       ELSE row[2] \in 0 .. K - 1 /\ \A c \in 1 .. K : RLE(p[c], p[row[2] + 1])
Wrong == Cardinality({k \in 1 .. Len(E.rows) : E.rows[k][1] # E.rows[k][2]})
TTest ==
  /\ Is("test") /\ Step /\ E.ok
  /\ IF fresh THEN TRUE ELSE E.w = w
  /\ w' = E.w /\ fresh' = FALSE
  /\ Len(E.rows) = Len(E.src)
  /\ \A k \in 1 .. Len(E.rows) : RowOf(E.rows[k], E.src[k], FALSE)
  /\ IF Len(E.rows) = 0 THEN TRUE ELSE RNear(E.er, RDiv(RInt(Wrong), RInt(Len(E.rows))), "1e-6", "0")
  /\ UNCHANGED <<K, norm, sel>>
TPredict ==
  /\ Is("predict") /\ Step
  /\ IF fresh THEN TRUE ELSE E.w = w
  /\ w' = E.w /\ fresh' = FALSE
  /\ E.n = Len(E.src) /\ Len(E.rows) = E.n
  /\ \A k \in 1 .. E.n : RowOf(E.rows[k], E.src[k], TRUE)
  /\ UNCHANGED <<K, norm, sel>>
Zeros == Cardinality({cj \in (1 .. K) \X (2 .. Len(E.w[1])) : BitsZero(E.w[cj[1]][cj[2]])})
TSparsity ==
  /\ Is("sparsity") /\ Step
  /\ IF fresh THEN TRUE ELSE E.w = w
  /\ w' = E.w /\ fresh' = FALSE
  /\ IF Len(E.w[1]) = 1 THEN TRUE ELSE RNear(E.s, RDiv(RInt(Zeros), RInt(K * (Len(E.w[1]) - 1))), "0", "1e-6")
  /\ UNCHANGED <<K, norm, sel>>
TEnd == Ended /\ UNCHANGED <<K, norm, sel, w, fresh>>
TraceNext == TNew \/ TSet \/ TTrain \/ TFinal \/ TReload \/ TPrep \/ TPred \/ TTest \/ TPredict \/ TSparsity \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
