------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* Sessions with the command-line programs. State: the files of a working    *)
(* directory and what they mean. A data file means a sequence of records in  *)
(* a format; a model file means the history it is the result of: algorithm,  *)
(* number of classes, and one step per training run (settings, records).     *)
(* The programs, and the library called directly, are different ways (E.via) *)
(* of making the same transitions. What a history yields is a function of    *)
(* the history alone: `seen' remembers what was observed for one.            *)
(***************************************************************************)
EXTENDS Params, TraceKit, SequencesExt
VARIABLES store, seen
tvars == <<tid, l, store, seen>>
TraceInit == KitInit /\ store = <<>> /\ seen = <<>>
Has(f, k) == f \in DOMAIN store /\ store[f].kind = k
Put(f, x) == (f :> x) @@ store
(* the observation v of something that is a function of key: first one recorded, later ones equal *)
Same(key, v, near) ==
  IF key \in DOMAIN seen
  THEN IF near THEN v - seen[key] \in {-1, 0, 1} ELSE seen[key] = v
  ELSE TRUE
Note(key, v) == IF key \in DOMAIN seen THEN <<>> ELSE (key :> v)

TMake == /\ Is("make") /\ Step /\ UNCHANGED seen
         /\ store' = Put(E.file, CASE E.kind = "data" -> [kind |-> "data", fmt |-> E.fmt, recs |-> E.recs]
                                   [] E.kind = "filter" -> [kind |-> "filter", text |-> E.text]
                                   [] OTHER -> [kind |-> "junk"])
Formats == {"svm", "csv", "bin"}
GoodData(f, fmt) == Has(f, "data") /\ fmt \in Formats /\ store[f].fmt = fmt
None == [alg |-> "", cls |-> 0, steps |-> <<>>]
Start ==
  IF E.from # "" THEN IF Has(E.from, "model") THEN store[E.from].hist ELSE None
  ELSE LET a == IF E.alg = "" /\ E.via = "sol_train" THEN "ogd" ELSE E.alg
       IN IF a \in Names /\ E.cls >= 2 THEN [alg |-> a, cls |-> E.cls, steps |-> <<>>] ELSE None
KOf(h) == IF h.cls = 2 THEN 1 ELSE h.cls
(* p: [parts, n, v, num, low], one item of the parameter list *)
GoodPar(h, p) == p.parts = 2 /\ (IF p.n = "filter" THEN Has(p.v, "filter") ELSE AcceptsPlain(h.alg, KOf(h), p.n, p.v, p.num, p.low))
Meaning(p) == IF p.n = "filter" THEN <<"filter", store[p.v].text>> ELSE <<p.n, p.v>>
Rep(s, n) == FoldLeft(LAMBDA a, k : a \o s, <<>>, [k \in 1 .. n |-> k])
Set(h) == [h EXCEPT !.steps = Append(@, [par |-> [k \in 1 .. Len(E.par) |-> Meaning(E.par[k])] \o <<>>, recs |-> <<>>])]
After(h) == [Set(h) EXCEPT !.steps[Len(h.steps) + 1].recs = Rep(store[E.data].recs, E.pass)]

(* ------------------------------- training ------------------------------- *)
Refused == E.rc # 0 /\ E.kept /\ UNCHANGED <<store, seen>>
TTrain ==
  /\ Is("train") /\ Step /\ ~E.crash
  /\ \E h \in {Start} :
     IF h # None /\ (\A k \in 1 .. Len(E.par) : GoodPar(h, E.par[k])) /\ (IF E.via = "lib" THEN Has(E.data, "data") ELSE GoodData(E.data, E.fmt))
     THEN \E m \in {After(h)} :
          IF E.out # "" /\ E.dst # "ok"
          THEN E.rc # 0 /\ UNCHANGED <<store, seen>>
          ELSE /\ E.rc = 0
               /\ E.acc >= 0 /\ Same(<<"acc", m>>, E.acc, TRUE)
               /\ (E.sparse >= 0 => Same(<<"sparse", m>>, E.sparse, TRUE))
               /\ (E.info # "" => Same(<<"info", Set(h)>>, E.info, FALSE))
               /\ (E.out # "" => Same(<<"file", m>>, E.sha, FALSE))
               /\ store' = IF E.out # "" THEN Put(E.out, [kind |-> "model", hist |-> m]) ELSE store
               /\ seen' = Note(<<"acc", m>>, E.acc) @@ (IF E.sparse >= 0 THEN Note(<<"sparse", m>>, E.sparse) ELSE <<>>)
                          @@ (IF E.info # "" THEN Note(<<"info", Set(h)>>, E.info) ELSE <<>>)
                          @@ (IF E.out # "" THEN Note(<<"file", m>>, E.sha) ELSE <<>>) @@ seen
     ELSE Refused

(* -------------------------------- testing -------------------------------- *)
Class(h, y) == IF h.cls = 2 THEN IF y = 1 THEN 1 ELSE -1 ELSE y
Hits(rows) == Cardinality({k \in 1 .. Len(rows) : rows[k][1] = rows[k][2]})
TTest ==
  /\ Is("test") /\ Step /\ ~E.crash /\ UNCHANGED store
  /\ IF Has(E.from, "model") /\ (IF E.via = "lib" THEN Has(E.data, "data") ELSE GoodData(E.data, E.fmt)) /\ (E.filter # "" => Has(E.filter, "filter"))
     THEN IF E.out # "" /\ E.dst # "ok"
          THEN E.rc # 0 /\ UNCHANGED seen
          ELSE \E key \in {<<store[E.from].hist, store[E.data].recs, IF E.filter # "" THEN store[E.filter].text ELSE "">>} :
               LET h == store[E.from].hist  d == store[E.data].recs  n == Len(d) IN
               /\ E.rc = 0
               /\ E.acc >= 0 /\ Same(<<"tacc", key>>, E.acc, TRUE)
               /\ (E.out # "" =>
                     /\ E.head = "label\tpredict\tscores"
                     /\ Len(E.rows) = n
                     /\ \A k \in 1 .. n : E.rows[k][1] = Class(h, d[k].y) /\ Len(E.rows[k][3]) = KOf(h)
                     /\ E.acc * n - Hits(E.rows) * 10000 \in -n .. n
                     /\ Same(<<"rows", key>>, E.rows, FALSE))
               /\ seen' = Note(<<"tacc", key>>, E.acc) @@ (IF E.out # "" THEN Note(<<"rows", key>>, E.rows) ELSE <<>>) @@ seen
     ELSE Refused

(* ------------------------------- data sets ------------------------------- *)
AllGood == \A k \in 1 .. Len(E.src) : GoodData(E.src[k], E.fmt)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Bag(s) == [x \in {s[k] : k \in 1 .. Len(s)} |-> Cardinality({k \in 1 .. Len(s) : s[k] = x})]
Ceil(n, k) == (n + k - 1) \div k
Part(s, k, i) == LET c == Ceil(Len(s), k) IN SubSeq(s, (i - 1) * c + 1, IF i * c < Len(s) THEN i * c ELSE Len(s))
TData ==
  /\ Is("data") /\ Step /\ ~E.crash /\ UNCHANGED seen
  /\ IF AllGood /\ E.to \in Formats /\ E.dst = "ok"
     THEN /\ E.rc = 0
          /\ CASE E.tool = "converter" -> store' = Put(E.out[1], [kind |-> "data", fmt |-> E.to, recs |-> store[E.src[1]].recs])
               [] E.tool = "concat" -> store' = Put(E.out[1], [kind |-> "data", fmt |-> E.to, recs |-> Flat([k \in 1 .. Len(E.src) |-> store[E.src[k]].recs])])
               [] E.tool = "split" -> store' = [f \in {E.out[k] : k \in 1 .. Len(E.out)} |->
                                               LET i == CHOOSE k \in 1 .. Len(E.out) : E.out[k] = f IN
                                               [kind |-> "data", fmt |-> E.to, recs |-> Part(store[E.src[1]].recs, Len(E.out), i)]] @@ store
               [] E.tool = "shuffle" -> Bag(E.recs) = Bag(store[E.src[1]].recs) /\ store' = Put(E.out[1], [kind |-> "data", fmt |-> E.to, recs |-> E.recs])
               [] OTHER -> FALSE
     ELSE E.rc # 0 /\ UNCHANGED store
(* a text data file as it is on disk *)
TDump == Is("dump") /\ Step /\ UNCHANGED <<store, seen>> /\ Has(E.file, "data") /\ store[E.file].recs = E.recs
TAnalyze ==
  /\ Is("analyze") /\ Step /\ ~E.crash /\ UNCHANGED <<store, seen>>
  /\ IF GoodData(E.src, E.fmt) /\ E.dst = "ok"
     THEN LET d == store[E.src].recs IN
          /\ E.rc = 0 /\ E.n = Len(d) /\ E.cls = Cardinality({d[k].y : k \in 1 .. Len(d)})
          /\ E.f = FoldLeft(LAMBDA a, r : a + r.n, 0, d)
     ELSE E.rc # 0
(* ----------------------------- command lines ----------------------------- *)
AllLosses == {"bool", "hinge", "logistic", "square", "maxscore-bool", "maxscore-hinge", "maxscore-logistic", "uniform-bool", "uniform-hinge", "uniform-logistic"}
TShow == /\ Is("show") /\ Step /\ ~E.crash /\ UNCHANGED <<store, seen>> /\ E.rc = 0
         /\ LET got == {E.names[k] : k \in 1 .. Len(E.names)} IN
            CASE E.what = "model" -> got = Names
              [] E.what = "loss" -> got = AllLosses
              [] OTHER -> Formats \subseteq got
TUsage == Is("usage") /\ Step /\ ~E.crash /\ UNCHANGED <<store, seen>> /\ (E.rc = 0) = E.help
TEnd == Ended /\ UNCHANGED <<store, seen>>
TraceNext == TMake \/ TTrain \/ TTest \/ TData \/ TDump \/ TAnalyze \/ TShow \/ TUsage \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
