------------------------------ MODULE LoadTrace -------------------------------
(***************************************************************************)
(* Model files: a file is either a whole model (everything but trailing     *)
(* white space is there) or nothing; saving says whether it succeeded.       *)
(*   save  st                 status of saving; Tr.full: device is full      *)
(*   cut   n, whole, ok       loading the first n bytes of the saved file     *)
(*   load  ok                 loading the file named in the script           *)
(***************************************************************************)
EXTENDS TraceKit
VARIABLES have,   \* a model is there
  good,           \* the saved file is a whole model file
  nload           \* loads so far
tvars == <<tid, l, have, good, nload>>
TraceInit == KitInit /\ have = FALSE /\ good = FALSE /\ nload = 0
TNew == Is("new") /\ Step /\ E.ok /\ have' = TRUE /\ UNCHANGED <<good, nload>>
TOther ==
  /\ (Is("set") \/ Is("begin") \/ Is("learn") \/ Is("train") \/ Is("final")) /\ Step
  /\ IF E.e = "set" THEN E.st = 0 ELSE TRUE
  /\ UNCHANGED <<have, good, nload>>
(* Tr.saves: for each save of the run, in order, whether the place can be written *)
TSave ==
  /\ Is("save") /\ Step
  /\ IF E.can THEN E.st = 0 ELSE E.st # 0
  /\ good' = (good \/ E.can)
  /\ UNCHANGED <<have, nload>>
TCut ==
  /\ Is("cut") /\ Step /\ good
  /\ E.ok = E.whole
  /\ UNCHANGED <<have, good, nload>>
(* a damaged copy of the saved file: no model *)
THurt ==
  /\ Is("hurt") /\ Step /\ good
  /\ ~E.ok
  /\ UNCHANGED <<have, good, nload>>
(* saving where only n bytes can be written: success exactly if the file fits; a file cut inside loads as no model *)
TLimit ==
  /\ Is("limit") /\ Step
  /\ IF E.fits THEN E.st = 0 /\ E.len = E.size /\ E.ok
     ELSE E.st # 0 /\ (IF E.len + 2 < E.size THEN ~E.ok ELSE TRUE)
  /\ UNCHANGED <<have, good, nload>>
(* E.model: the file is a saved model *)
TLoad ==
  /\ Is("load") /\ Step
  /\ E.ok = E.model
  /\ have' = E.ok
  /\ nload' = nload + 1
  /\ UNCHANGED good
TNone == Is("nomodel") /\ Step /\ ~have /\ UNCHANGED <<have, good, nload>>
TEnd == Ended /\ UNCHANGED <<have, good, nload>>
TraceNext == TNew \/ TOther \/ TSave \/ TCut \/ THurt \/ TLimit \/ TLoad \/ TNone \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
