------------------------------ MODULE ToolTrace -----------------------------
(***************************************************************************)
(* Data-set tools. State: the data sets read so far as sequences of records *)
(* (label, idx, val), of which conversions, shuffles, splits, concatenations *)
(* and analyses are functions or relations.                                  *)
(***************************************************************************)
EXTENDS Text, TraceKit
VARIABLES cur,      \* convert: the data set as it must be now; tools: the inputs
          outs,     \* outputs seen
          job       \* last call
tvars == <<tid, l, cur, outs, job>>
TraceInit == KitInit /\ cur = Tr.src /\ outs = <<>> /\ job = [name |-> "none"]
(* a file read back: readable to its end, and a table has one width *)
Sound(e) == e.readable = 1 /\ Len(e.cols) <= 1
Rec(r) == [label |-> r.label, idx |-> r.idx, val |-> r.val]

(* ------------------------------ conversion ------------------------------ *)
Ps(r) == [k \in 1 .. Len(r.idx) |-> [i |-> r.idx[k], b |-> r.val[k]]]
One == 1065353216
MinusOne == -1082130432
Bin(thr, b) == IF BitsLT(thr, b) THEN One ELSE MinusOne
Map(s, F(_)) == [k \in 1 .. Len(s) |-> F(s[k])]
Binarised(e, r) == IF Tr.bin THEN [r EXCEPT !.val = Map(r.val, LAMBDA b : Bin(Tr.thr, b))] ELSE r
DropZ(ps) == SelectSeq(ps, LAMBDA p : ~BitsZero(p.b))
SameVal(a, b) == IF a = b THEN TRUE ELSE Dec6(a, b)   \* not a disjunction: TLC would branch on it
SamePairs(x, y) == Len(x) = Len(y) /\ \A k \in 1 .. Len(x) : IntEq(x[k].i, y[k].i) /\ SameVal(x[k].b, y[k].b)
Follows(to, r, o) == /\ IntEq(r.label, o.label)
                     /\ IF to = "csv" THEN SamePairs(DropZ(Ps(r)), DropZ(Ps(o))) ELSE SamePairs(Ps(r), Ps(o))
TConv == /\ Is("conv") /\ Step /\ UNCHANGED <<cur, outs>> /\ E.st = 0
         /\ job' = [name |-> "conv", to |-> E.to]
TConvOut == /\ Is("out") /\ job.name = "conv" /\ Step /\ UNCHANGED outs /\ Sound(E)
            /\ Len(E.recs) = Len(cur)
            /\ \A k \in 1 .. Len(cur) : Follows(job.to, Binarised(E, cur[k]), E.recs[k])
            /\ cur' = E.recs      \* the next step converts what is really there
            /\ job' = [name |-> "none"]
TRefuse == Is("refuse") /\ Step /\ E.st # 0 /\ UNCHANGED <<cur, outs, job>>

(* -------------------------- shuffle, split, ... ------------------------- *)
(* records as values; text formats print six digits, so they are compared in *)
(* the canonical form the driver gives them (already rounded inputs)         *)
TIn == Is("out") /\ E.name = "in" /\ job.name = "none" /\ Step /\ Sound(E)
       /\ cur' = Append(cur, Map(E.recs, Rec)) /\ UNCHANGED <<outs, job>>
TTool == Is("tool") /\ Step /\ E.st = 0 /\ UNCHANGED <<cur, outs>>
         /\ job' = E
         /\ (E.name = "split" => E.files = E.k)
TOut == Is("out") /\ E.name = "out" /\ Step /\ Sound(E) /\ job.name \in {"shuffle", "split", "concat"}
        /\ outs' = Append(outs, Map(E.recs, Rec)) /\ UNCHANGED <<cur, job>>
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Canon(r) == [r EXCEPT !.label = r.label]
Bag(s) == [x \in {s[k] : k \in 1 .. Len(s)} |-> Cardinality({k \in 1 .. Len(s) : s[k] = x})]
Ceil(n, k) == (n + k - 1) \div k
Size(n, k, i) == LET c == Ceil(n, k) left == n - (i - 1) * c IN IF left <= 0 THEN 0 ELSE IF left < c THEN left ELSE c
ToolOK ==
  CASE job.name = "none" -> TRUE
    [] job.name = "conv" -> FALSE
    [] job.name = "shuffle" -> Len(outs) = 1 /\ Bag(outs[1]) = Bag(cur[1])
    [] job.name = "concat" -> Len(outs) = 1 /\ outs[1] = Flat(cur)
    [] job.name = "split" ->
         LET n == Len(cur[1]) IN
         /\ Len(outs) = job.k
         /\ \A i \in 1 .. job.k : Len(outs[i]) = Size(n, job.k, i)
         /\ IF job.shuf THEN Bag(Flat(outs)) = Bag(cur[1]) ELSE Flat(outs) = cur[1]
    [] OTHER -> TRUE
(* ------------------------------- analysis ------------------------------- *)
AllIdx == UNION {{r.idx[k] : k \in 1 .. Len(r.idx)} : r \in {cur[1][j] : j \in 1 .. Len(cur[1])}}
NFeat == FoldLeft(LAMBDA a, r : a + Len(r.idx), 0, cur[1])
Labels == {cur[1][j].label : j \in 1 .. Len(cur[1])}
MaxIdx == IF AllIdx = {} THEN "0" ELSE CHOOSE i \in AllIdx : \A j \in AllIdx : IntLE(j, i)
TReport ==
  /\ Is("report") /\ job.name = "analyze" /\ Step /\ UNCHANGED <<cur, outs, job>>
  /\ IntEq(E.n, ToString(Len(cur[1])))
  /\ IntEq(E.f, ToString(NFeat))
  /\ IntEq(E.dim, MaxIdx)
  /\ IntEq(E.nz, ToString(Cardinality(AllIdx)))
  /\ IntEq(E.cls, ToString(Cardinality(Labels)))
  /\ {E.per[k][1] : k \in 1 .. Len(E.per)} = Labels /\ Len(E.per) = Cardinality(Labels)
  /\ \A k \in 1 .. Len(E.per) : IntEq(E.per[k][2], ToString(Cardinality({j \in 1 .. Len(cur[1]) : cur[1][j].label = E.per[k][1]})))
TEnd == Ended /\ ToolOK /\ UNCHANGED <<cur, outs, job>>
TraceNext == TConv \/ TConvOut \/ TRefuse \/ TIn \/ TTool \/ TOut \/ TReport \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
