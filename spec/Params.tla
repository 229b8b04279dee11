-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* The learners, their parameters and the values these may take. a: the      *)
(* algorithm, K: number of class scores (1 for a binary problem).            *)
(***************************************************************************)
EXTENDS Loss
Names == {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "fofs", "rda", "rda-l1", "erda-l1",
          "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs"}
Ogd == {"ogd", "stg", "fobos-l1", "pet"}
Ada == {"ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs"}
L1 == {"stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"}
Sel == {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"}
(* kind of a numeric parameter: nonneg, pos, unit (0 < v <= 1), any, count (integer > 0), int0 (integer >= 0), int, or none *)
Kind(a, K, n) ==
  CASE n = "bias_eta" -> "nonneg"
    [] n = "t" -> "int0"
    [] n = "dim" -> "int0"
    [] n = "active_smoothness" -> "pos"
    [] n = "cost_margin" -> IF K = 1 THEN "pos" ELSE "none"
    [] n = "eta" -> IF a \in Ogd \cup Ada \cup {"fofs"} THEN "nonneg" ELSE "none"
    [] n = "cur_eta" -> IF a \in Ogd THEN "nonneg" ELSE "none"
    [] n = "power_t" -> IF a \in Ogd THEN "nonneg" ELSE "none"
    [] n = "k" -> IF a \in {"stg", "alma2"} THEN "count" ELSE "none"
    [] n = "C" -> IF a \in {"pa1", "pa2", "alma2"} THEN "any" ELSE "none"
    [] n = "p" -> IF a = "alma2" THEN "int" ELSE "none"
    [] n = "alpha" -> IF a = "alma2" THEN "unit" ELSE "none"
    [] n = "sigma" -> IF a \in {"rda", "rda-l1", "erda-l1"} THEN "pos" ELSE "none"
    [] n = "rou" -> IF a = "erda-l1" THEN "nonneg" ELSE "none"
    [] n = "a" -> IF a \in {"sop", "cw", "eccw"} THEN "any" ELSE "none"
    [] n = "phi" -> IF a \in {"cw", "eccw"} THEN "any" ELSE "none"
    [] n = "r" -> IF a \in {"arow", "sofs"} THEN "any" ELSE "none"
    [] n = "delta" -> IF a \in Ada THEN "pos" ELSE "none"
    [] n = "lambda" -> IF a = "fofs" THEN "nonneg" ELSE IF a \in L1 \cup Sel THEN "any" ELSE "none"
    [] n = "B" -> IF a = "fofs" THEN "count" ELSE IF a \in Sel THEN "any" ELSE "none"
    [] n = "sparse_thresh" -> IF a \in L1 THEN "any" ELSE "none"
    [] OTHER -> "none"
Losses(K) == IF K = 1 THEN {"bool", "hinge", "logistic"}
          ELSE {"maxscore-bool", "maxscore-hinge", "maxscore-logistic", "uniform-bool", "uniform-hinge", "uniform-logistic"}
Boolish == {"bool", "maxscore-bool", "uniform-bool"}
Hinges == {"hinge", "maxscore-hinge", "uniform-hinge"}
Fits(a, K, ls) == ls \in Losses(K) /\ (a \in {"perceptron", "sop"} => ls \in Boolish) /\ (a \in {"alma2", "cw", "eccw", "arow", "sofs"} => ls \in Hinges)
InRange(kind, v) ==
  CASE kind = "nonneg" -> RLE(R0, v)
    [] kind = "int0" -> RLE(R0, v)
    [] kind = "pos" -> RLT(R0, v)
    [] kind = "count" -> RLT(R0, v)
    [] kind = "unit" -> RLT(R0, v) /\ RLE(v, R1)
    [] OTHER -> TRUE
NormCode(v) == CASE v \in {"None", "0"} -> "0" [] v \in {"L1", "1"} -> "1" [] v \in {"L2", "2"} -> "2" [] OTHER -> ""
(* num: the value is written as a number; low: the value in lower case *)
AcceptsPlain(a, K, name, val, num, low) ==
  CASE name = "loss" -> Fits(a, K, low)
    [] name = "norm" -> IF a = "alma2" THEN NormCode(val) = "2" ELSE NormCode(val) # ""
    [] name = "lazy_update" -> TRUE
    [] name \in {"exp_show", "step_show"} -> num
    [] OTHER -> Kind(a, K, name) # "none" /\ num /\ InRange(Kind(a, K, name), RDec(val))
=============================================================================
