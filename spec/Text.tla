-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The two text formats, as automata over the characters of a line.         *)
(* A line is a sequence of one-character strings without the line break.    *)
(* Verdict of a line:                                                        *)
(*   "ok"    well formed, with the record it denotes                         *)
(*   "bad"   must be refused                                                 *)
(*   "grey"  forms the formats do not define (blanks around ':' or ',',      *)
(*           non-integer labels, '+-', numbers outside the types' range):    *)
(*           readers may do as they like                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Num

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == {" ", "\t"}
IsDigit(c) == c \in Digit

(* Number automaton: state n, one character at a time.                       *)
(*   m: "start" "sign" "int" "frac" "exp" "expsign" "expint" "dead"          *)
(*   d: mantissa digits, f: fraction digits, x: exponent digits, g: grey     *)
Num0 == [m |-> "start", tok |-> "", d |-> 0, f |-> 0, x |-> 0, g |-> FALSE, sgn |-> FALSE]
NumStep(n, c) ==
  LET t == [n EXCEPT !.tok = @ \o c] IN
  CASE c \in Digit /\ n.m \in {"start", "sign", "int"} -> [t EXCEPT !.m = "int", !.d = @ + 1]
    [] c \in Digit /\ n.m = "frac" -> [t EXCEPT !.d = @ + 1, !.f = @ + 1]
    [] c \in Digit /\ n.m \in {"exp", "expsign", "expint"} -> [t EXCEPT !.m = "expint", !.x = @ + 1]
    [] c \in {"+", "-"} /\ n.m = "start" -> [t EXCEPT !.m = "sign", !.sgn = TRUE]
    [] c = "-" /\ n.m = "sign" /\ n.tok = "+" -> [t EXCEPT !.g = TRUE]
    [] c = "." /\ n.m \in {"start", "sign", "int"} -> [t EXCEPT !.m = "frac"]
    [] c \in {"e", "E"} /\ n.m \in {"int", "frac"} /\ n.d > 0 -> [t EXCEPT !.m = "exp"]
    [] c \in {"+", "-"} /\ n.m = "exp" -> [t EXCEPT !.m = "expsign"]
    [] c = "-" /\ n.m = "expsign" -> [t EXCEPT !.g = TRUE]
    [] OTHER -> [t EXCEPT !.m = "dead"]
(* what a finished number token is *)
OutOfRange(t) == \/ DecLT("1e37", t) \/ DecLT(t, "-1e37")
                 \/ ~DecIsZero(t) /\ DecLT(t, "1e-37") /\ DecLT("-1e-37", t)
NumVerdict(n) ==
  CASE n.m = "dead" \/ n.d = 0 -> "bad"
    [] n.g \/ n.m \in {"exp", "expsign"} \/ n.x > 2 \/ n.d > 30 -> "grey"
    [] n.m = "frac" /\ n.f = 0 -> "grey"
    [] OutOfRange(n.tok) -> "grey"
    [] OTHER -> "ok"
LabelVerdict(n) ==
  CASE n.m = "dead" \/ n.d = 0 -> "bad"
    [] n.m # "int" \/ n.g \/ n.d > 9 -> "grey"
    [] OTHER -> "ok"
IndexVerdict(n) ==
  CASE n.m = "dead" -> "bad"
    [] n.d = 0 -> "bad"
    [] n.m # "int" \/ n.g \/ n.d > 10 -> "grey"
    [] n.sgn -> "grey"
    [] ~IntLE(n.tok, "4294967294") -> "grey"
    [] OTHER -> "ok"

(* ------------------------------ libsvm line ------------------------------ *)
(* p: "label" "gap" (before an index) "index" "postindex" "prevalue" "value" *)
Svm0 == [p |-> "label", n |-> Num0, v |-> "ok", label |-> "", idx |-> <<>>, val |-> <<>>]
Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "grey" \/ b = "grey" THEN "grey" ELSE "ok"
Fail(s) == [s EXCEPT !.v = "bad"]
EndLabel(s, nextp) == [s EXCEPT !.v = Worse(@, LabelVerdict(s.n)), !.label = s.n.tok, !.n = Num0, !.p = nextp]
EndIndex(s, nextp) == [s EXCEPT !.v = Worse(@, IndexVerdict(s.n)), !.idx = Append(@, s.n.tok), !.n = Num0, !.p = nextp]
EndValue(s, nextp) == [s EXCEPT !.v = Worse(@, NumVerdict(s.n)), !.val = Append(@, [t |-> s.n.tok, f |-> s.n.f]),
                                !.n = Num0, !.p = nextp]
Grey(s) == [s EXCEPT !.v = Worse(@, "grey")]

SvmStep(s0, c) ==
  IF s0.v = "bad" THEN s0 ELSE
  LET s == IF c = "\r" THEN Grey(s0) ELSE s0
      blank == c \in Blank \/ c = "\r" IN
  CASE s.p = "label" ->
         IF blank THEN (IF s.n.m = "start" THEN Grey(s) ELSE EndLabel(s, "gap"))
         ELSE IF c = ":" THEN Fail(s) ELSE [s EXCEPT !.n = NumStep(@, c)]
    [] s.p = "gap" ->
         IF blank THEN s ELSE IF c = ":" THEN Fail(s) ELSE [s EXCEPT !.p = "index", !.n = NumStep(Num0, c)]
    [] s.p = "index" ->
         IF blank THEN Grey(EndIndex(s, "postindex"))
         ELSE IF c = ":" THEN EndIndex(s, "prevalue") ELSE [s EXCEPT !.n = NumStep(@, c)]
    [] s.p = "postindex" ->
         IF blank THEN s ELSE IF c = ":" THEN [s EXCEPT !.p = "prevalue"] ELSE Fail(s)
    [] s.p = "prevalue" ->
         IF blank THEN Grey(s) ELSE IF c = ":" THEN Fail(s) ELSE [s EXCEPT !.p = "value", !.n = NumStep(Num0, c)]
    [] s.p = "value" ->
         IF blank THEN EndValue(s, "gap") ELSE IF c = ":" THEN Fail(s) ELSE [s EXCEPT !.n = NumStep(@, c)]
SvmEnd(s) ==
  CASE s.v = "bad" -> s
    [] s.p = "label" -> EndLabel(s, "gap")
    [] s.p = "gap" -> s
    [] s.p = "value" -> EndValue(s, "gap")
    [] OTHER -> Fail(s)                  \* a feature without colon or value
SvmLine(cs) == SvmEnd(FoldLeft(SvmStep, Svm0, cs))

(* -------------------------------- CSV line ------------------------------- *)
Csv0 == [p |-> "label", n |-> Num0, v |-> "ok", label |-> "", idx |-> <<>>, val |-> <<>>]
CsvStep(s0, c) ==
  IF s0.v = "bad" THEN s0 ELSE
  LET s == IF c \in Blank \cup {"\r"} THEN Grey(s0) ELSE s0
      blank == c \in Blank \/ c = "\r" IN
  CASE s.p = "label" ->
         IF c = "," THEN EndLabel(s, "col")
         ELSE IF blank THEN (IF s.n.m = "start" THEN s ELSE EndLabel(s, "post"))
         ELSE [s EXCEPT !.n = NumStep(@, c)]
    [] s.p = "col" ->
         IF c = "," THEN (IF s.n.m = "start" THEN Fail(s) ELSE EndValue(s, "col"))
         ELSE IF blank THEN (IF s.n.m = "start" THEN s ELSE EndValue(s, "post"))
         ELSE [s EXCEPT !.n = NumStep(@, c)]
    [] s.p = "post" -> IF blank THEN s ELSE IF c = "," THEN [s EXCEPT !.p = "col"] ELSE Fail(s)
CsvEnd(s) ==
  CASE s.v = "bad" -> s
    [] s.p = "label" -> EndLabel(s, "post")
    [] s.p = "col" -> (IF s.n.m = "start" THEN Fail(s) ELSE EndValue(s, "post"))
    [] OTHER -> s
CsvLine(cs) == CsvEnd(FoldLeft(CsvStep, Csv0, cs))

(* ------------------- the record a good line stands for ------------------- *)
Pairs(fmt, r) ==   \* sequence of [i: index string, t: value token, f: fraction digits]
  IF fmt = "svm" THEN [k \in 1 .. Len(r.val) |-> [i |-> r.idx[k], t |-> r.val[k].t, f |-> r.val[k].f]]
  ELSE LET all == [k \in 1 .. Len(r.val) |-> [i |-> ToString(k), t |-> r.val[k].t, f |-> r.val[k].f]]
       IN SelectSeq(all, LAMBDA p : ~DecIsZero(p.t))
PairLT(a, b) == IF IntEq(a.i, b.i) THEN DecLT(a.t, b.t) ELSE IntLE(a.i, b.i)
ObsLT(a, b) == IF IntEq(a.i, b.i) THEN BitsLT(a.b, b.b) ELSE IntLE(a.i, b.i)
(* TLC's SortSeq is quadratic even on ordered sequences *)
Sort(s, LT(_, _)) == IF \A k \in 1 .. Len(s) - 1 : ~LT(s[k + 1], s[k]) THEN s ELSE SortSeq(s, LT)
(* (values bound by \E x \in {..} are computed once; LET in actions may be recomputed by TLC) *)
(* obs: label string, idx strings, val float bits, as returned by a reader *)
Match(fmt, r, obs) ==
  \E o0 \in {[k \in 1 .. Len(obs.idx) |-> [i |-> obs.idx[k], b |-> obs.val[k]]] \o <<>>} :
  \E e \in {Sort(Pairs(fmt, r) \o <<>>, PairLT)} : \E o \in {Sort(o0, ObsLT)} :
  /\ IntEq(r.label, obs.label)
  /\ Len(obs.idx) = Len(obs.val) /\ Len(e) = Len(o)
  /\ \A k \in 1 .. Len(o0) - 1 : IntLE(o0[k].i, o0[k + 1].i)
  /\ \A k \in 1 .. Len(e) : IntEq(e[k].i, o[k].i) /\ DecNearCut(e[k].t, o[k].b, e[k].f)
ParseLine(fmt, cs) == IF fmt = "svm" THEN SvmLine(cs) ELSE CsvLine(cs)
ASSUME NumLoaded == IntLE("2", "10")
=============================================================================
