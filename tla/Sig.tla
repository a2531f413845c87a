-------------------------------- MODULE Sig --------------------------------
(***************************************************************************)
(* Signatures: how the arguments of a public operation are described to    *)
(* the call generator and to the conformance checker.                      *)
(*                                                                         *)
(*   k = "e"  elementwise: a number, or an array (every array argument of  *)
(*            one call has the same length)                                *)
(*   k = "s"  a single number                                              *)
(*   k = "a"  always an array of the call's array length                   *)
(*   k = "i"  an integer                                                   *)
(*   k = "c"  one of a list of values (strings, booleans, numbers)         *)
(*   k = "v"  a vector with its own length (shared by the "v"s of a call)  *)
(*   k = "f"  a vector of positive fractions with sum 1, same length       *)
(*   k = "d"  a strictly increasing vector, one entry longer than the "v"s *)
(*   k = "g"  like "f", or several such vectors as the rows of a matrix    *)
(*   k = "t"  a vector with a range for each entry (opt)                   *)
(*   k = "u"  an increasing vector, one entry longer than the "v"s         *)
(*   k = "m"  a 6x6 matrix of the symmetry named by opt                    *)
(***************************************************************************)
EXTENDS MathK

Par(k, lo, hi, lg, sp, opt) == [k |-> k, lo |-> lo, hi |-> hi, lg |-> lg, sp |-> sp, opt |-> opt]
E(lo, hi)      == Par("e", R(lo), R(hi), FALSE, <<>>, <<>>)
EX(lo, hi, sp) == Par("e", R(lo), R(hi), FALSE, sp, <<>>)
EL(lo, hi)     == Par("e", R(lo), R(hi), TRUE, <<>>, <<>>)
Sc(lo, hi)     == Par("s", R(lo), R(hi), FALSE, <<>>, <<>>)
SX(lo, hi, sp) == Par("s", R(lo), R(hi), FALSE, sp, <<>>)
SL(lo, hi)     == Par("s", R(lo), R(hi), TRUE, <<>>, <<>>)
A(lo, hi)      == Par("a", R(lo), R(hi), FALSE, <<>>, <<>>)
AX(lo, hi, sp) == Par("a", R(lo), R(hi), FALSE, sp, <<>>)
AL(lo, hi)     == Par("a", R(lo), R(hi), TRUE, <<>>, <<>>)
In(lo, hi)     == Par("i", lo, hi, FALSE, <<>>, <<>>)
Ch(opts)       == Par("c", 0, 0, FALSE, <<>>, opts)
Vv(lo, hi)     == Par("v", R(lo), R(hi), FALSE, <<>>, <<>>)
VL(lo, hi)     == Par("v", R(lo), R(hi), TRUE, <<>>, <<>>)
VX(lo, hi, sp) == Par("v", R(lo), R(hi), FALSE, sp, <<>>)
Fr             == Par("f", R("0.001"), R("1"), FALSE, <<>>, <<>>)
Fg             == Par("g", R("0.001"), R("1"), FALSE, <<0>>, <<>>)
Dp(lo, hi)     == Par("d", R(lo), R(hi), FALSE, <<>>, <<>>)
Mx(name)       == Par("m", 0, 0, FALSE, <<>>, name)

\* nlo: the smallest array length.
\* p: the parameters; req: how many of them are required (the rest have defaults);
\* n: the largest array length worth generating; vlo..vhi: lengths of the "v" vectors;
\* vb: a large length the "v" vectors sometimes have (0: never)
\* mix: whether scalars and arrays may be mixed; t: relative tolerance;
\* ab: absolute tolerance of each component, if one is needed
\* w: the operation is judged on the whole call rather than element by element
\* c: elements must be numerically stable (module Lift); far: wider ranges may be drawn
SigR(p) == [p |-> p, req |-> Len(p), n |-> 1500, nlo |-> 1, vlo |-> 2, vhi |-> 4, vb |-> 0, mix |-> TRUE,
            t |-> R("1e-8"), w |-> FALSE, c |-> TRUE, far |-> TRUE, ab |-> <<>>]
None == "None"
Truth(x) == IF KindOf(x) = "num" THEN x > 0 ELSE x
=============================================================================
