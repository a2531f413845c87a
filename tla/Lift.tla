-------------------------------- MODULE Lift --------------------------------
(***************************************************************************)
(* From elements to calls.  An operation is specified on numbers; called   *)
(* with arrays it must return, position by position, what it returns for   *)
(* the elements.  This module defines the result expected of a whole call, *)
(* when an observed result agrees with it, and when the arguments are in   *)
(* the domain on which the result is specified and numerically stable.     *)
(***************************************************************************)
EXTENDS Rock

IsLift(p)  == p.k \in {"e", "a"}
IsArr(x)   == KindOf(x) = "seq"
\* the array length of a call (0: every argument is a single number)
CallLen(sig, a) ==
  LET L == [j \in 1..Len(a) |-> IF IsLift(sig.p[j]) /\ IsArr(a[j]) THEN Len(a[j]) ELSE 0]
  IN  IF Len(a) = 0 THEN 0 ELSE Trunc(MaxSeq(L))
\* the arguments of element i
Elem(sig, a, i) ==
  [j \in 1..Len(a) |-> IF IsLift(sig.p[j]) /\ IsArr(a[j]) THEN a[j][IF Len(a[j]) = 1 THEN 1 ELSE i] ELSE a[j]]

\* F(args of one element) -> components, lifted over the arrays of the call
LiftOf(F(_), sig, a) ==
  LET n == CallLen(sig, a) IN
  IF sig.w \/ n = 0 THEN Force(F(a))
  ELSE LET q == Force([i \in 1..n |-> F(Force(Elem(sig, a, i)))])
       IN  Force([c \in 1..Len(q[1]) |-> [i \in 1..n |-> q[i][c]]])

Expected(m, f, a) == LET F(x) == Call(m, f, x) IN LiftOf(F, SigOf(m, f), a)
HasAlt(m, f, a)   == Alt(m, f, Force(Elem(SigOf(m, f), a, 1))) # <<>>
Shipped(m, f, a)  == LET F(x) == Alt(m, f, x)[2] IN LiftOf(F, SigOf(m, f), a)

Tiny == R("1e-10")
Agree(e, o, rt, ab) == CloseT(e, o, rt, MaxR(ab, Tiny*MaxAbs(e)))
\* one component; a single number may stand for an array of equal numbers
AgreeA(e, o, rt, ab) ==
  LET s == Squeeze(e)  t == Squeeze(o) IN
  \/ Agree(s, t, rt, ab)
  \/ /\ KindOf(t) = "num" /\ KindOf(s) = "seq"
     /\ \A x \in {Flat(s)} : \A i \in 1..Len(x) : Close(x[i], t, rt, MaxR(ab, Tiny*MaxAbs(s)))
AgreeC(e, o, rt) == AgreeA(e, o, rt, 0)
Matches(sig, e, o) ==
  \/ /\ KindOf(o) = "seq" /\ Len(o) = Len(e)
     /\ \A c \in 1..Len(e) : AgreeA(e[c], o[c], sig.t, IF sig.ab = <<>> THEN 0 ELSE sig.ab[c])
  \/ sig.ab = <<>> /\ AgreeC(e, o, sig.t)

\* ------------------------------------------------------------- the domain
\* a well-conditioned element: a relative change of 1e-9 of the arguments changes the
\* result by less than 1e-6; results that are not finite are not specified
Bump(p, x, s) == IF p.k \in {"e", "a", "s"} /\ KindOf(x) = "num" THEN x*(1 + s*R("1e-9")) ELSE x
Stable(m, f, sig, x) ==
  LET y == Force([j \in 1..Len(x) |-> Bump(sig.p[j], x[j], IF j % 2 = 0 THEN -1 ELSE 1)])
      u == Force(Call(m, f, x))  v == Force(Call(m, f, y))
  IN  AllFin(u) /\ CloseT(u, v, R("1e-6"), R("1e-9")*MaxAbs(u))
ElemOk(m, f, sig, x) == IF Pre(m, f, x) THEN (sig.w \/ ~sig.c \/ Stable(m, f, sig, x)) ELSE FALSE
=============================================================================
