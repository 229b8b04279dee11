------------------------------ MODULE MathTrace ------------------------------
(***************************************************************************)
(* Dense vectors, sparse vectors and matrices.  Handles share an object      *)
(* after copying (a copy is the same vector), copyto makes an equal but      *)
(* separate one; everything else works on one object, element by element.    *)
(* An operation between different shapes is refused and changes nothing.     *)
(***************************************************************************)
EXTENDS Num, TraceKit, SequencesExt
VARIABLES
  ob,      \* objects: sequences of reals (dense), [i, v] (sparse), [r, c, d] (matrix)
  vh, sh, mh   \* handles: position of the object
tvars == <<tid, l, ob, vh, sh, mh>>
R0 == RInt(0)
R1 == RInt(1)
TraceInit == KitInit
  /\ ob = [k \in 1 .. 8 |-> IF k <= 4 THEN [d |-> <<>>, i |-> <<>>, r |-> 1, c |-> 0]
                            ELSE IF k <= 6 THEN [d |-> <<>>, i |-> <<>>, r |-> 1, c |-> 0] ELSE [d |-> <<>>, i |-> <<>>, r |-> 1, c |-> 0]] \o <<>>
  /\ vh = <<1, 2, 3, 4>> /\ sh = <<5, 6>> /\ mh = <<7, 8>>
Reals(b) == [k \in 1 .. Len(b) |-> RBits(b[k])] \o <<>>
X == RBits(E.x)
Vd(h) == ob[vh[h]].d
So(h) == ob[sh[h]]
Mo(h) == ob[mh[h]]
(* a value together with the magnitude its rounding error is relative to *)
Val(a) == [v |-> a, m |-> RAbs(a)]
Plus(a, b) == [v |-> RAdd(a.v, b.v), m |-> RAdd(a.m, b.m)]
Minus(a, b) == [v |-> RSub(a.v, b.v), m |-> RAdd(a.m, b.m)]
Times(a, b) == [v |-> RMul(a.v, b.v), m |-> RMul(a.m, b.m)]
Over(a, b) == [v |-> RDiv(a.v, b.v), m |-> RDiv(a.m, RAbs(b.v))]
Trunc(a, b) == [v |-> IF RLT(b.v, a.v) THEN RSub(a.v, b.v) ELSE IF RLT(a.v, RNeg(b.v)) THEN RAdd(a.v, b.v) ELSE R0, m |-> RAdd(a.m, b.m)]
Root(a) == [v |-> RSqrt(RAbs(a.v)), m |-> RSqrt(RAbs(a.v))]
Abs(a) == [v |-> RAbs(a.v), m |-> a.m]
Combine(op, a, b) == CASE op = "+" -> Plus(a, b) [] op = "-" -> Minus(a, b) [] op = "*" -> Times(a, b) [] op = "/" -> Over(a, b) [] OTHER -> b
Near(a, o) == IF RFinite(a.v) /\ RFinite(a.m) /\ RLT(a.m, RDec("1e38")) THEN RLE(RAbs(RSub(a.v, o)), RAdd(RDec("1e-30"), RMul(RDec("1e-6"), a.m))) ELSE TRUE
Vals(d) == [k \in 1 .. Len(d) |-> Val(d[k])] \o <<>>
ZipF(f(_, _), a, b) == [k \in 1 .. Len(a) |-> f(a[k], b[k])] \o <<>>
Const(n, a) == [k \in 1 .. n |-> a] \o <<>>
(* right-hand sides: dense ones are sequences of values *)
DenseOps == {"vv", "lin", "l2m", "tv", "tru", "sqr", "sub", "vmul", "vdiv", "vsub", "vxs", "xv", "pls", "adag"}
BothOps == {"lin", "l2m", "tv", "vmul", "vdiv", "vsub", "adag"}
Dense(name) ==
  LET a == Vals(Vd(E.j))
      b == Vals(Vd(E.k))
      x == Val(X)
  IN CASE name = "vv" -> a
       [] name = "lin" -> [k \in 1 .. Len(a) |-> Plus(Times(x, a[k]), b[k])] \o <<>>
       [] name = "l2m" -> [k \in 1 .. Len(a) |-> Minus(Times(a[k], a[k]), b[k])] \o <<>>
       [] name = "tv" -> [k \in 1 .. Len(a) |-> Trunc(a[k], Abs(b[k]))] \o <<>>
       [] name = "tru" -> [k \in 1 .. Len(a) |-> Trunc(a[k], x)] \o <<>>
       [] name = "sqr" -> [k \in 1 .. Len(a) |-> Root(a[k])] \o <<>>
       [] name = "vmul" -> [k \in 1 .. Len(a) |-> Times(a[k], b[k])] \o <<>>
       [] name = "vdiv" -> [k \in 1 .. Len(a) |-> Over(a[k], b[k])] \o <<>>
       [] name = "vsub" -> [k \in 1 .. Len(a) |-> Minus(a[k], b[k])] \o <<>>
       [] name = "vxs" -> [k \in 1 .. Len(a) |-> Over(a[k], x)] \o <<>>
       [] name = "xv" -> [k \in 1 .. Len(a) |-> Over(x, a[k])] \o <<>>
       [] name = "pls" -> [k \in 1 .. Len(a) |-> Plus(a[k], x)] \o <<>>
       [] name = "adag" -> [k \in 1 .. Len(a) |-> Over(a[k], Plus(Root(Abs(b[k])), x))] \o <<>>
       [] name = "sub" -> [k \in 1 .. Len(a) |-> Minus(x, a[k])] \o <<>>
Fits(name) == /\ Len(Vd(E.j)) = Len(Vd(E.i))
              /\ name \in BothOps => Len(Vd(E.j)) = Len(Vd(E.k))
(* sparse ones: value at each index they have *)
SparseOps == {"cs", "s2", "sl", "sd", "strk", "ssq", "spl", "smi", "dsd", "sdd", "stv"}
At(s, j) == CHOOSE q \in 1 .. Len(s.i) : s.i[q] = j
HasIdx(s, j) == \E q \in 1 .. Len(s.i) : s.i[q] = j
Sparse(name, j) ==   \* j: index from 0
  LET s == So(E.j)
      a == Val(s.d[At(s, j)])
      x == Val(X)
  IN CASE name = "cs" -> Times(x, a)
       [] name = "s2" -> Over(Times(a, a), x)
       [] name = "sl" -> Times(Val(Vd(E.k)[j + 1]), x)
       [] name = "strk" -> Trunc(a, x)
       [] name = "ssq" -> Root(Abs(a))
       [] name = "spl" -> Plus(a, x)
       [] name = "smi" -> Minus(x, a)
       [] name = "dsd" -> Minus(Val(Vd(E.k)[j + 1]), a)
       [] name = "sdd" -> Over(a, Val(Vd(E.k)[j + 1]))
       [] name = "stv" -> Trunc(Val(Vd(E.k)[j + 1]), Abs(a))
       [] name = "sd" -> Times(a, Val(Vd(E.k)[j + 1]))
Sum(s) == FoldLeft(LAMBDA a, b : Plus(a, b), Val(R0), s)
Rows(s, n) == SelectSeq([q \in 1 .. Len(s.i) |-> q] \o <<>>, LAMBDA q : s.i[q] < n)
(* ---- what the handles show ---- *)
SameDense(want, o) == Len(want) = Len(o) /\ \A k \in 1 .. Len(o) : Near(want[k], o[k])
Shows(nob, nv, ns, nm) ==
  /\ \A h \in 1 .. 4 : Reals(E.v[h]) = nob[nv[h]].d
  /\ \A h \in 1 .. 2 : E.s[h].i = nob[ns[h]].i /\ Reals(E.s[h].v) = nob[ns[h]].d
                       /\ E.s[h].dim = (IF E.s[h].i = <<>> THEN 0 ELSE E.s[h].i[Len(E.s[h].i)] + 1)
  /\ \A h \in 1 .. 2 : Reals(E.m[h].d) = nob[nm[h]].d /\ E.m[h].r = nob[nm[h]].r /\ E.m[h].c = nob[nm[h]].c
Same == UNCHANGED <<ob, vh, sh, mh>> /\ Shows(ob, vh, sh, mh)
(* an object gets the contents shown, which must be near the wanted ones; nothing else changes *)
Put(id, want, o, obj) == SameDense(want, o) /\ ob' = [ob EXCEPT ![id] = [obj EXCEPT !.d = o]]
OV == Reals(E.v[E.i])
OM == Reals(E.m[E.i].d)
OS == Reals(E.s[E.j].v)
Keep == UNCHANGED <<vh, sh, mh>> /\ Shows(ob', vh, sh, mh)
SetV(want) == ~E.thr /\ Put(vh[E.i], want, OV, ob[vh[E.i]]) /\ Keep
NewObj(o) == ob' = Append(ob, o)
New == Len(ob) + 1
Blank == [d |-> <<>>, i |-> <<>>, r |-> 1, c |-> 0]
Cut(d, n) == IF Len(d) <= n THEN d ELSE SubSeq(d, 1, n)
Prefix(d, o) == \A k \in 1 .. Len(d) : d[k] = o[k]
Has(name) == Is("op") /\ E.name = name /\ Step
TVNew == Has("vnew") /\ ~E.thr /\ NewObj([Blank EXCEPT !.d = Const(E.n, R0)]) /\ vh' = [vh EXCEPT ![E.i] = New] /\ UNCHANGED <<sh, mh>> /\ Shows(ob', vh', sh, mh)
TVCopy == (Has("vcopy") \/ Has("vctor")) /\ ~E.thr /\ vh' = [vh EXCEPT ![E.i] = vh[E.j]] /\ UNCHANGED <<ob, sh, mh>> /\ Shows(ob, vh', sh, mh)
TVCopyTo == Has("vcopyto") /\ ~E.thr /\ ob' = [ob EXCEPT ![vh[E.j]].d = Vd(E.i)] /\ Keep
TVSet == Has("vset") /\ SetV([Vals(Vd(E.i)) EXCEPT ![E.n + 1] = Val(X)])
TPush == Has("push") /\ SetV(Append(Vals(Vd(E.i)), Val(X)))
TPop == Has("pop") /\ IF Vd(E.i) = <<>> THEN E.thr /\ Same ELSE SetV(Front(Vals(Vd(E.i))))
TResize == Has("resize") /\ ~E.thr /\ Len(E.v[E.i]) = E.n /\ Prefix(Cut(Vd(E.i), E.n), OV) /\ ob' = [ob EXCEPT ![vh[E.i]].d = OV] /\ Keep
TClear == Has("clear") /\ SetV(<<>>)
TFill == Has("fill") /\ SetV([k \in 1 .. Len(Vd(E.i)) |-> Val(IF k > E.n THEN X ELSE Vd(E.i)[k])] \o <<>>)
TFillTo == Has("fillto") /\ SetV([k \in 1 .. Len(Vd(E.i)) |-> IF k > E.k - 1 /\ k <= E.n THEN Plus(Val(Vd(E.i)[k]), Val(X)) ELSE Val(Vd(E.i)[k])] \o <<>>)
TVs == Has("vs") /\ SetV([k \in 1 .. Len(Vd(E.i)) |-> Combine(E.op, Val(Vd(E.i)[k]), Val(X))] \o <<>>)
TDense == Is("op") /\ E.name \in DenseOps /\ Step
  /\ IF Fits(E.name) THEN SetV(ZipF(LAMBDA a, b : Combine(E.op, a, b), Vals(Vd(E.i)), Dense(E.name))) ELSE E.thr /\ Same
TSparse == Is("op") /\ E.name \in SparseOps /\ Step
  /\ SetV([k \in 1 .. Len(Vd(E.i)) |-> IF HasIdx(So(E.j), k - 1) THEN Combine(E.op, Val(Vd(E.i)[k]), Sparse(E.name, k - 1)) ELSE Val(Vd(E.i)[k])] \o <<>>)
Returns(a) == ~E.thr /\ Near(a, RBits(E.ret)) /\ Same
DotOps == {"dot", "dpl", "dmi", "ddv", "rede"}
TDot == Is("op") /\ E.name \in DotOps /\ Step
  /\ IF Len(Vd(E.i)) # Len(Vd(E.j)) THEN E.thr /\ Same
     ELSE Returns(Sum(ZipF(LAMBDA a, b : CASE E.name \in {"dot", "rede"} -> Times(a, b) [] E.name = "dpl" -> Plus(a, b) [] E.name = "dmi" -> Minus(a, b) [] OTHER -> Over(a, b),
                           Vals(Vd(E.i)), Vals(Vd(E.j)))))
TLook ==
  \/ Has("red") /\ Returns(Sum(Vals(Vd(E.i))))
  \/ Has("back") /\ Returns(Val(Vd(E.i)[Len(Vd(E.i))]))
  \/ Has("front") /\ Returns(Val(Vd(E.i)[1]))
  \/ Has("each") /\ Returns(Sum(Vals(SubSeq(Vd(E.i), E.n + 1, Len(Vd(E.i))))))
  \/ Has("vreserve") /\ ~E.thr /\ Same
TDotS == Has("dots") /\ \E s \in {So(E.j)} : \E q \in {Rows(s, Len(Vd(E.i)))} :
           Returns(Sum([k \in 1 .. Len(q) |-> Times(Val(Vd(E.i)[s.i[q[k]] + 1]), Val(s.d[q[k]]))] \o <<>>))
TNorm ==
  \/ Has("n1") /\ Returns(Sum([k \in 1 .. Len(Vd(E.i)) |-> Abs(Val(Vd(E.i)[k]))] \o <<>>))
  \/ Has("n2") /\ Returns(Sum(ZipF(Times, Vals(Vd(E.i)), Vals(Vd(E.i)))))
  \/ Has("n1s") /\ Returns(Sum([k \in 1 .. Len(So(E.j).d) |-> Abs(Val(So(E.j).d[k]))] \o <<>>))
  \/ Has("n2s") /\ Returns(Sum(ZipF(Times, Vals(So(E.j).d), Vals(So(E.j).d))))
TSpush == Has("spush") /\ ~E.thr /\ ob' = [ob EXCEPT ![sh[E.j]].i = Append(@, E.n), ![sh[E.j]].d = Append(@, X)] /\ Keep
TSclear == Has("sclear") /\ ~E.thr /\ ob' = [ob EXCEPT ![sh[E.j]].i = <<>>, ![sh[E.j]].d = <<>>] /\ Keep
TScopy == (Has("scopy") \/ Has("sctor")) /\ ~E.thr /\ sh' = [sh EXCEPT ![E.j] = sh[E.k]] /\ UNCHANGED <<ob, vh, mh>> /\ Shows(ob, vh, sh', mh)
TSop == Has("sop") /\ ~E.thr
  /\ Put(sh[E.j], [k \in 1 .. Len(So(E.j).d) |-> Combine(E.op, Val(So(E.j).d[k]), Val(X))] \o <<>>, OS, So(E.j)) /\ Keep
TMNew == Has("mnew") /\ ~E.thr /\ NewObj([d |-> Const(E.n * (E.k - 1), R0), i |-> <<>>, r |-> E.n, c |-> E.k - 1])
  /\ mh' = [mh EXCEPT ![E.i] = New] /\ UNCHANGED <<vh, sh>> /\ Shows(ob', vh, sh, mh')
TMResize == Has("mresize") /\ ~E.thr /\ Len(E.m[E.i].d) = E.n * (E.k - 1) /\ Prefix(Cut(Mo(E.i).d, E.n * (E.k - 1)), OM)
  /\ ob' = [ob EXCEPT ![mh[E.i]] = [d |-> OM, i |-> <<>>, r |-> E.n, c |-> E.k - 1]] /\ Keep
TMCopy == Has("mcopy") /\ ~E.thr /\ mh' = [mh EXCEPT ![E.i] = mh[E.j]] /\ UNCHANGED <<ob, vh, sh>> /\ Shows(ob, vh, sh, mh')
TMCopyTo == Has("mcopyto") /\ ~E.thr /\ ob' = [ob EXCEPT ![mh[E.j]] = Mo(E.i)] /\ Keep
Cell(o) == E.n * o.c + E.k          \* row n (from 0), column k - 1 (from 0), in row order
SetM(want) == ~E.thr /\ Put(mh[E.i], want, OM, Mo(E.i)) /\ Keep
TMSet == Has("mset") /\ SetM([Vals(Mo(E.i).d) EXCEPT ![Cell(Mo(E.i))] = Val(X)])
TMGet == \/ Has("mget") /\ Returns(Val(Mo(E.i).d[Cell(Mo(E.i))]))
         \/ Has("mex") /\ Returns(Times(Val(Mo(E.i).d[Cell(Mo(E.i))]), Val(X)))
TMs == Has("ms") /\ SetM([k \in 1 .. Len(Mo(E.i).d) |-> Combine(E.op, Val(Mo(E.i).d[k]), Val(X))] \o <<>>)
MShape == Mo(E.i).r = Mo(E.j).r /\ Mo(E.i).c = Mo(E.j).c
TMm == (Has("mm") \/ Has("mlin"))
  /\ IF MShape THEN SetM(ZipF(LAMBDA a, b : Combine(E.op, a, IF E.name = "mm" THEN b ELSE Plus(Times(Val(X), b), b)), Vals(Mo(E.i).d), Vals(Mo(E.j).d)))
     ELSE E.thr /\ Same
TText == Has("text") /\ ~E.thr /\ Same
  /\ IF \A k \in 1 .. Len(Vd(E.i)) : RFinite(Vd(E.i)[k])
     THEN E.ret = 0 /\ Len(E.text) = Len(E.v[E.i]) /\ \A k \in 1 .. Len(E.text) : Dec6(E.v[E.i][k], E.text[k])
     ELSE TRUE
TEnd == Ended /\ UNCHANGED <<ob, vh, sh, mh>>
TraceNext == TVNew \/ TVCopy \/ TVCopyTo \/ TVSet \/ TPush \/ TPop \/ TResize \/ TClear \/ TFill \/ TFillTo \/ TVs \/ TLook \/ TDense \/ TSparse \/ TDot \/ TDotS
  \/ TNorm \/ TSpush \/ TSclear \/ TScopy \/ TSop \/ TMNew \/ TMResize \/ TMCopy \/ TMCopyTo \/ TMSet \/ TMGet \/ TMs \/ TMm \/ TText \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
