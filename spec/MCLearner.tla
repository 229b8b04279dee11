------------------------------ MODULE MCLearner -------------------------------
(***************************************************************************)
(* What the update rules of module Learner imply, checked for every record   *)
(* sequence up to a length over a small alphabet:                            *)
(*   a twin model that is given its dimension beforehand, is brought up to   *)
(*   date in all positions at every step and may be finalised at any moment  *)
(*   ends with the same weights and makes the same updates (C14, C17, C20);  *)
(*   absent features are left alone (C15, C16); confidence only grows (C16); *)
(*   passive-aggressive steps reach the margin; projections hold (C15);      *)
(*   the budget is kept and the best features survive (C18).                 *)
(***************************************************************************)
EXTENDS Learner, Json, IOUtils
(* the configuration: algorithm, settings, alphabet and length *)
Cfg == JsonDeserialize(IOEnv.MC)
Alg == Cfg.alg
K == Cfg.K
Settings == Cfg.set
MaxLen == Cfg.len
Features == Cfg.features
VARIABLES S,      \* the model
  T,              \* its eager twin
  old,            \* S before the last record (after catching up)
  rec,            \* the last record: features, dense vector, label, updated
  n
vars == <<S, T, old, rec, n>>
Dim == Features + 1
RECURSIVE SetAll(_, _)
SetAll(M, s) == IF s = <<>> THEN M ELSE SetAll(SetPar(M, s[1][1], s[1][2]), Tail(s))
Fresh == SetAll(NewState(Alg, K), Settings)
(* Cfg.forget: negative control, positions are not brought up to date *)
(* all records: a value (or absence) for every feature *)
Vals == {RDec(Cfg.vals[i]) : i \in 1 .. Len(Cfg.vals)}
None == <<"none">>
Recs == [1 .. Features -> Vals \cup {None}]
Labels == IF K = 1 THEN {-1, 1} ELSE 0 .. K - 1
FeatsOf(r) == {i + 1 : i \in {i \in 1 .. Features : r[i] # None}}
Width(f) == IF f = {} THEN 1 ELSE CHOOSE m \in f : \A j \in f : j <= m
DenseOf(r, m) == [j \in 1 .. m |-> IF j \in FeatsOf(r) THEN r[j - 1] ELSE R0] \o <<>>
(* the B best features, first ones first among equals *)
Ahead(U, i, j) == IF RLT(Good(U, j), Good(U, i)) THEN TRUE ELSE IF RLT(Good(U, i), Good(U, j)) THEN FALSE ELSE i < j
Chosen(U) == {j \in 2 .. U.n : Cardinality({i \in (2 .. U.n) \ {j} : Ahead(U, i, j)}) < U.B}
Picked(U) == IF U.alg \in Select /\ U.B > 0
             THEN LET C == Chosen(U) IN [U EXCEPT !.w = Map2(U, LAMBDA c, j : IF j = 1 \/ j \in C THEN U.w[c][j] ELSE R0)]
             ELSE U
Scores(U, x) == [c \in Pos(U.K) |-> Score(U, x, c)] \o <<>>
(* one record, given the model with its positions brought up to date *)
After(U1, f, x, y) ==
  LET p == Scores(U1, x)
      L == LossAt(U1, y, p, x)
      d == IF U1.par.lazy THEN LabelOf(p) # y ELSE RLT(R0, L.raw)
      g == IF RLT(R0, L.raw) THEN L.g ELSE Vec(U1.K, R0)
      U2 == [U1 EXCEPT !.t = @ + 1]
  IN [st |-> IF d THEN Picked([Update(U2, f, x, g, RMax(R0, L.raw)) EXCEPT !.upd = @ + 1]) ELSE U2, d |-> d]
Init ==
  /\ S = [Fresh EXCEPT !.B = Fresh.par.B] /\ T = Grow([Fresh EXCEPT !.B = Fresh.par.B], Dim)
  /\ old = S /\ n = 0
  /\ rec = [f |-> {}, x |-> <<R0>>, y |-> 1, d |-> FALSE, p |-> <<>>, q |-> <<>>]
Learn(r, y) ==
  \E f \in {FeatsOf(r)} :
  \E m \in {IF Width(f) > S.n THEN Width(f) ELSE S.n} :
  \E x \in {DenseOf(r, m)} : \E xt \in {DenseOf(r, Dim)} :
  \E U \in {IF Cfg.forget THEN Grow(S, m) ELSE Prep(Grow(S, m), f, x)} : \E V \in {Prep(T, 2 .. Dim, xt)} :
  \E A \in {After(U, f, x, y)} : \E B \in {After(V, f, xt, y)} :
    /\ old' = U /\ rec' = [f |-> f, x |-> x, y |-> y, d |-> A.d, p |-> Scores(U, x), q |-> Scores(Picked(Final(Grow(S, m))), x)] /\ n' = n + 1
    /\ S' = A.st
    /\ T' = B.st
(* the twin is finalised: nobody should notice *)
Finish == n < MaxLen /\ T' = Picked(Final(T)) /\ UNCHANGED <<S, old, rec, n>>
Next == (n < MaxLen /\ \E r \in Recs : \E y \in Labels : Learn(r, y)) \/ Finish
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------------ *)
Eq(a, b) == RNear(a, b, "1e-9", "1e-9")
EqW(v, w) == \A c \in Pos(Len(v)) : \A j \in Pos(Len(v[c])) : Eq(v[c][j], w[c][j])
Twin == /\ EqW(Picked(Final(Grow(S, Dim))).w, Picked(Final(T)).w)
        /\ S.upd = T.upd /\ S.t = T.t
(* the scores of a training record are those the finalised model would give (second order perceptron: its own rule) *)
Honest == (Alg # "sop") => \A c \in Pos(Len(rec.p)) : Eq(rec.p[c], rec.q[c])
Absent ==
  Alg \notin Select \cup {"alma2"} =>
    \A c \in Pos(K) : \A j \in 2 .. S.n : IF j \in rec.f THEN TRUE ELSE Eq(S.w[c][j], old.w[c][j]) /\ Eq(S.H[c][j], old.H[c][j])
Slack == RDec("1.000000001")
Confident ==
  \A c \in Pos(K) : \A j \in Pos(S.n) :
    /\ Alg \in CwLike \cup ArowLike => RLE(S.H[c][j], RMul(Slack, old.H[c][j])) /\ RLT(R0, S.H[c][j])
    /\ Alg \in AdaFobos \cup AdaRda => RLE(old.H[c][j], RMul(Slack, S.H[c][j]))
Hinge == Fresh.par.loss \in {"hinge", "maxscore-hinge"}
(* passive-aggressive: the record just learned has no loss left (against the rival it was corrected for) *)
Passive ==
  (Alg = "pa" /\ K = 1 /\ Hinge /\ rec.d /\ Norm(rec.x) # R0 /\ Fresh.par.bias = R0) =>
     RNear(LossAt(S, rec.y, Scores(S, rec.x), rec.x).raw, R0, "0", "1e-9")
Bounded ==    \* no step of PA-I is larger than C
  Alg = "pa1" => RLE(S.eta, RMax(R1, S.par.C))
(* confidence weighted: the record is right by phi times its new variance (an equality for records of one feature) *)
(* or, in the exact convex form, phi times the standard deviation the step was solved for                         *)
Sure ==
  (Alg \in CwLike /\ K = 1 /\ rec.d /\ Cardinality(rec.f) = 1 /\ Norm(rec.x) # R0 /\ Fresh.par.bias = R0) =>
     \E V \in {Variance(S, <<R1>>, rec.x)} : \E V0 \in {Variance(old, <<R1>>, rec.x)} :
       RNear(RMul(Scores(S, rec.x)[1], RInt(rec.y)), RMul(S.par.phi, IF Alg = "cw" THEN V ELSE EccwU(S, V0, S.eta)), "1e-9", "1e-9")
Ball ==
  \A c \in Pos(K) :
    /\ Alg = "alma2" => RLE(Norm(S.w[c]), RDec("1.000000001"))
    /\ (Alg = "fofs" /\ S.par.lambda # R0) => RLE(RMul(S.par.lambda, Norm(S.w[c])), RDec("1.000000001"))
Budget ==
  (Alg \in Select /\ S.B > 0) =>
     /\ Cardinality({j \in 2 .. S.n : \E c \in Pos(K) : S.w[c][j] # R0}) <= S.B
(* L1: truncation never changes a sign *)
SignKept ==
  Alg \in {"stg", "fobos-l1", "ada-fobos-l1"} =>
    \A c \in Pos(K) : \A j \in Pos(S.n) : \E a \in {Final(S).w[c][j]} :
       /\ RLE(RAbs(a), RAbs(S.w[c][j]))
       /\ RLE(R0, RMul(a, S.w[c][j]))
(* negative control: something is learned *)
NeverLearns == S.upd = 0
=============================================================================
