------------------------------ MODULE ParamTrace ------------------------------
(***************************************************************************)
(* Parameters of the learners: which exist, which values are accepted, and   *)
(* what the model then reports.  A refused setting changes nothing.          *)
(***************************************************************************)
EXTENDS Params, TraceKit
VARIABLES alg, K, par, w, show
tvars == <<tid, l, alg, K, par, w, show>>
(* E.num: the value is written as a number; E.low: the value in lower case *)
Accepts ==
  CASE E.name = "model" -> E.val = alg
    [] E.name = "cls_num" -> E.val = par["cls_num"]
    [] E.name = "clf_num" -> E.val = par["clf_num"]
    [] E.name = "filter" -> FALSE      \* (only names of missing files are used here)
    [] OTHER -> AcceptsPlain(alg, K, E.name, E.val, E.num, E.low)
Key == IF E.name = "B" /\ alg # "fofs" THEN "lambda" ELSE E.name
Old(k) == IF k \in DOMAIN par THEN par[k] ELSE ""
(* what is reported under the key of an accepted setting *)
Reported(now) ==
  CASE E.name = "loss" -> now = E.low
    [] E.name = "norm" -> now = NormCode(E.val)
    [] E.name = "lazy_update" -> now = (IF E.val = "true" THEN "true" ELSE "false")
    [] E.name = "dim" -> RNear(RDec(now), RMax(RDec(E.val), RDec(par["dim"])), "0", "0")
    [] E.name \in {"model", "cls_num", "clf_num"} -> now = E.val
    [] OTHER -> RNear(RDec(now), RDec(E.val), "6e-6", "0")
Hidden == {"exp_show", "step_show", "filter"}
Same(a, b, ks) == \A k \in ks : k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k]
Grown(a, b) == \A c \in 1 .. Len(b) : \A j \in 1 .. Len(b[c]) : IF j <= Len(a[c]) THEN a[c][j] = b[c][j] ELSE BitsZero(b[c][j])
TraceInit == KitInit /\ alg = "" /\ K = 0 /\ par = <<>> /\ w = <<>> /\ show = TRUE
(* E.low: the name in lower case *)
TNew ==
  /\ Is("new") /\ Step
  /\ E.ok = (E.low \in Names /\ E.cls >= 2)
  /\ IF E.ok
     THEN /\ alg' = E.low /\ K' = (IF E.cls = 2 THEN 1 ELSE E.cls) /\ par' = E.par /\ w' = E.w
          /\ E.par["model"] = E.low /\ RDec(E.par["cls_num"]) = RInt(E.cls) /\ RDec(E.par["clf_num"]) = RInt(K') /\ E.K = K'
     ELSE alg' = "" /\ UNCHANGED <<K, par, w>>
  /\ UNCHANGED show
TSet ==
  /\ Is("set") /\ Step /\ alg # ""
  /\ IF Accepts
     THEN /\ E.st = 0
          /\ Grown(w, E.w)
          /\ IF E.name \in Hidden THEN E.par = par
             ELSE /\ Key \in DOMAIN E.par /\ Reported(E.par[Key])
                  /\ DOMAIN E.par = DOMAIN par \cup {Key}
                  /\ Same(par, E.par, DOMAIN par \ {Key})
     ELSE E.st # 0 /\ E.par = par /\ E.w = w
  /\ par' = E.par /\ w' = E.w /\ UNCHANGED <<alg, K, show>>
TNone == Is("nomodel") /\ Step /\ alg = "" /\ UNCHANGED <<alg, K, par, w, show>>
(* training only moves the iteration number, the step size and the dimension; the progress display still works *)
Moving == {"t", "dim", "cur_eta", "k"}
TTrain ==
  /\ Is("train") /\ Step /\ alg # "" /\ E.cb # <<>>
  /\ w' = E.w /\ UNCHANGED <<alg, K, par, show>>
TParams ==
  /\ Is("params") /\ Step /\ alg # ""
  /\ DOMAIN E.par = DOMAIN par
  /\ Same(par, E.par, DOMAIN par \ (IF alg = "stg" THEN Moving \ {"k"} ELSE Moving))
  /\ par' = E.par /\ UNCHANGED <<alg, K, w, show>>
TEnd == Ended /\ UNCHANGED <<alg, K, par, w, show>>
TraceNext == TNew \/ TSet \/ TNone \/ TTrain \/ TParams \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
