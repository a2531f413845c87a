------------------------------- MODULE RealK -------------------------------
(***************************************************************************)
(* The real-number kernel of the rockphypy specification.                  *)
(*                                                                         *)
(* TLC has no real numbers.  This module declares an arithmetic over       *)
(* integers and reals whose operators TLC evaluates in IEEE-754 double     *)
(* precision (java/RealKImpl.java).  It knows nothing about rockphypy: it  *)
(* is arithmetic, elementary functions, comparison with a tolerance, JSON  *)
(* input/output and a seeded source of random numbers.                     *)
(*                                                                         *)
(* + - * on two integers stay integers (so indices work as usual);         *)
(* everything else is real.  / and ^ are always real.                      *)
(***************************************************************************)
a + b  == CHOOSE v : TRUE
a - b  == CHOOSE v : TRUE
a * b  == CHOOSE v : TRUE
a / b  == CHOOSE v : TRUE
a ^ b  == CHOOSE v : TRUE
-. a   == CHOOSE v : TRUE
a < b  == CHOOSE v \in BOOLEAN : TRUE
a > b  == CHOOSE v \in BOOLEAN : TRUE
a \leq b == CHOOSE v \in BOOLEAN : TRUE
a \geq b == CHOOSE v \in BOOLEAN : TRUE
a .. b == CHOOSE v : TRUE
a % b  == CHOOSE v : TRUE
a \div b == CHOOSE v : TRUE

R(s)      == CHOOSE v : TRUE      \* the real written by the decimal numeral s
Pi        == CHOOSE v : TRUE
NaN       == CHOOSE v : TRUE
Inf       == CHOOSE v : TRUE
Sqrt(a)   == CHOOSE v : TRUE
Cbrt(a)   == CHOOSE v : TRUE
Exp(a)    == CHOOSE v : TRUE
Ln(a)     == CHOOSE v : TRUE
Log10(a)  == CHOOSE v : TRUE
Sin(a)    == CHOOSE v : TRUE
Cos(a)    == CHOOSE v : TRUE
Tan(a)    == CHOOSE v : TRUE
Asin(a)   == CHOOSE v : TRUE
Acos(a)   == CHOOSE v : TRUE
Atan(a)   == CHOOSE v : TRUE
Atan2(y, x) == CHOOSE v : TRUE
Cosh(a)   == CHOOSE v : TRUE
Sinh(a)   == CHOOSE v : TRUE
Abs(a)    == CHOOSE v : TRUE
MaxR(a, b) == CHOOSE v : TRUE
MinR(a, b) == CHOOSE v : TRUE
ToReal(a) == CHOOSE v : TRUE
Trunc(a)  == CHOOSE v : TRUE      \* the integer part, as an integer
IsNaN(a)  == CHOOSE v \in BOOLEAN : TRUE
IsFin(a)  == CHOOSE v \in BOOLEAN : TRUE

\* |a-b| <= atol + rtol * max(|a|,|b|); NaN is close to NaN only
Close(a, b, rtol, atol)  == CHOOSE v \in BOOLEAN : TRUE
\* the same on nested sequences and records
CloseT(a, b, rtol, atol) == CHOOSE v \in BOOLEAN : TRUE

KindOf(a) == CHOOSE v : TRUE      \* "num" "str" "bool" "seq" "rec" "other"
Force(a)  == CHOOSE v : TRUE      \* the same value, fully evaluated
Squeeze(a) == CHOOSE v : TRUE     \* without the sequence levels of length one
Flat(a)   == CHOOSE v : TRUE      \* the leaves of a nested sequence, in order
AllFin(a) == CHOOSE v \in BOOLEAN : TRUE   \* every leaf number is finite
SortR(s)  == CHOOSE v : TRUE      \* a sequence of numbers in ascending order
MaxAbs(a) == CHOOSE v : TRUE      \* the largest absolute value of the finite leaves
ArgSort(s) == CHOOSE v : TRUE     \* the permutation that sorts s
SumSeq(s) == CHOOSE v : TRUE
MaxSeq(s) == CHOOSE v : TRUE
MinSeq(s) == CHOOSE v : TRUE

RandInt(lo, hi)  == CHOOSE v : TRUE   \* seeded by -Dvseed
RandReal(lo, hi) == CHOOSE v : TRUE

LoadTrace(path)  == CHOOSE v : TRUE   \* ndjson file -> sequence of values
Emit(path, v)    == CHOOSE v2 \in BOOLEAN : TRUE   \* append v as a JSON line
Prop(name, dflt) == CHOOSE v : TRUE   \* a JVM system property, as a string
PropInt(name, dflt) == CHOOSE v : TRUE
Keep(name, c)    == CHOOSE v \in BOOLEAN : TRUE   \* remember the constant c; Kept gives it back
Kept(name)       == CHOOSE v : TRUE
=============================================================================
