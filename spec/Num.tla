-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Numbers outside TLC's 32-bit integers.  Each operator is evaluated by    *)
(* the Java class Num (spec/java/Num.java), which is part of the trusted    *)
(* base; the definitions here only fix arities.                             *)
(*   decimal strings: "12", "-3.5e2"  (exact, arbitrary size)               *)
(*   reals: <<hi, lo>>, the two halves of an IEEE double                    *)
(*   float bits: an integer, the bits of an IEEE single                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
(* decimal strings *)
IntEq(a, b) == a = b
IntLE(a, b) == a = b
IntSucc(a) == a                     \* a + 1
DecLT(a, b) == a = b
DecIsZero(a) == a = "0"
(* the single with these bits is the decimal, to single precision; slack: digits beyond the 7th may be cut *)
DecNear(tok, bits) == TRUE
DecNearCut(tok, bits, fracDigits) == TRUE
(* same value to six significant digits *)
Dec6(bitsA, bitsB) == TRUE
BitsLT(a, b) == a < b
BitsZero(a) == a = 0
(* reals *)
RInt(n) == <<n, 0>>
RDec(s) == <<0, 0>>                  \* decimal string to real
RBits(b) == <<b, 0>>                 \* single to real
RAdd(a, b) == a
RSub(a, b) == a
RMul(a, b) == a
RDiv(a, b) == a
RNeg(a) == a
RAbs(a) == a
RSqrt(a) == a
RPow(a, b) == a
RExp(a) == a
RLog(a) == a
RMin(a, b) == a
RMax(a, b) == a
RLT(a, b) == TRUE
RLE(a, b) == TRUE
RFinite(a) == TRUE
(* |a - b| <= abs + rel * max(|a|, |b|), abs and rel decimal strings *)
RNear(a, b, rel, abs) == TRUE
RStr(a) == ""
RFloor(a) == 0                       \* integer part, an integer
RSingle(a) == a                      \* rounded to single precision
(* sum of a sequence of reals; inner product of two sequences *)
RSum(s) == s
RDot(s, t) == s
=============================================================================
