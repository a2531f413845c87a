------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace validation.  The trace is the record of a replayed history; every *)
(* record is one transition of the library and is accepted when the        *)
(* specification allows it.  The trace is cut into NShards interleaved     *)
(* parts validated in parallel; a state is a position in one part.  The    *)
(* verdict of each record is written to the verdict file:                  *)
(*    ok              allowed                                              *)
(*    known:F         allowed only by the shipped formula of finding F     *)
(*    bad:clause      not allowed                                          *)
(*    skip            not specified                                        *)
(***************************************************************************)
EXTENDS Lift

CONSTANT NShards
VARIABLES l, v
TraceFile   == Prop("vtrace", "trace.ndjson")
VerdictFile == Prop("vverdict", "/dev/null")
OnlyJudged  == Prop("vjudge", "")         \* the other operations only make up the history
NotJudged   == Prop("vskip", "")
Mode        == Prop("vmode", "value")     \* "value": results; "pure": purity; "laws": laws only
Trace == LoadTrace(TraceFile)

\* ------------------------------------------------------------- values
Plots == {"cst_plot", "plot_rpt", "screening_plot", "cement_diag_plot", "kde_plot"}
\* two collections of curves are the same: the order of drawing is not specified
SameLines(e, o, rt) ==
  /\ KindOf(o) = "seq" /\ Len(o) = Len(e)
  /\ \A i \in 1..Len(e) : \E j \in 1..Len(o) : AgreeC(e[i], o[j], rt)
  /\ \A j \in 1..Len(o) : \E i \in 1..Len(e) : AgreeC(e[i], o[j], rt)
\* within rounding of the porosity where two screening curves meet, one of them may be left out
Half2(e, o, c, d, pb) == [i \in 1..Len(e[c]) |-> IF o[1][i] # pb /\ IsNaN(o[c][i]) /\ ~IsNaN(o[d][i]) /\ ~IsNaN(e[c][i]) /\ ~IsNaN(e[d][i]) THEN e[c][i] ELSE o[c][i]]
Joined(e, o, pb) == IF KindOf(o) = "seq" /\ Len(o) = 7 /\ \A c \in 1..7 : KindOf(o[c]) = "seq" /\ Len(o[c]) = Len(e[c])
                THEN <<o[1], o[2], Half2(e, o, 3, 4, pb), Half2(e, o, 4, 3, pb), o[5], Half2(e, o, 6, 7, pb), Half2(e, o, 7, 6, pb)>> ELSE o
\* the samples drawn: those with a place and an attribute, in a definite order
Sample(e) ==
  LET x == e[2][1]  y == e[2][2]  c == e[3]
      ix == SelectSeq(Seq1(Len(x)), LAMBDA i : ~IsNaN(x[i]) /\ ~IsNaN(y[i]) /\ ~IsNaN(c[i]))
      up == ArgSort(Force([k \in 1..Len(ix) |-> x[ix[k]]*R("31415.9") + y[ix[k]] + c[ix[k]]*R("271.8")]))
  IN  [k \in 1..Len(ix) |-> LET i == ix[up[k]] IN <<x[i], y[i], c[i]>>]
Samples(e) == LET n == Len(e[2][1]) IN
              IF Len(e[2][2]) = n /\ KindOf(e[3]) = "seq" /\ Len(e[3]) = n THEN Sample(e) ELSE <<"none">>
SampleShape(o) == KindOf(o[2]) = "seq" /\ Len(o[2]) = 2 /\ KindOf(o[2][1]) = "seq" /\ KindOf(o[2][2]) = "seq"
\* beyond the critical angle of the S-P impedance nothing is specified
RECURSIVE MaskNaN(_, _)
MaskNaN(e, o) == IF KindOf(e) = "seq" /\ KindOf(o) = "seq" /\ Len(e) = Len(o) THEN [i \in 1..Len(e) |-> MaskNaN(e[i], o[i])]
                 ELSE IF KindOf(e) = "num" /\ IsNaN(e) THEN NaN ELSE o
Beyond(e, o) == IF KindOf(o) = "seq" /\ Len(o) = 5 THEN [o EXCEPT ![3] = MaskNaN(Squeeze(e[3]), Squeeze(o[3]))] ELSE o
MatchesF(f, a, sig, e, o) ==
  IF f = "EI_ref" THEN Matches(sig, e, Force(Beyond(e, o))) ELSE
  IF f = "screening" THEN Matches(sig, e, Force(Joined(e, o, a[12]))) ELSE
  IF f \in Plots
  THEN /\ KindOf(o) = "seq" /\ Len(o) = Len(e) /\ SameLines(e[1], o[1], sig.t)
       /\ IF f \in {"screening_plot", "cement_diag_plot"}
          THEN SampleShape(o) /\ CloseT(Force(Samples(e)), Force(Samples(o)), sig.t, R("1e-9"))
          ELSE \A c \in 2..Len(e) : AgreeC(e[c], o[c], sig.t)
  ELSE Matches(sig, e, o)
Unspecified(r) == r.f = "kde_plot" /\ (Len(r.a) < 9 \/ Len(r.a[9]) = 0)

\* rows by columns, where that is documented, even if there is one row or one column only
Table(o, n, k) == KindOf(o) = "seq" /\ Len(o) = n /\ \A i \in 1..n : KindOf(o[i]) = "seq" /\ Len(o[i]) = k
LaidOut(r) ==
  CASE r.f = "EI_ref" -> (IsArr(r.a[1]) /\ IsArr(r.a[4])) => \A c \in 1..Len(r.o) : Table(r.o[c], Len(r.a[1]), Len(r.a[4]))
    [] r.f = "Aki_Richards" -> (IsArr(r.a[2]) /\ IsArr(r.a[1])) => \A c \in {1, 2} : Table(r.o[c], Len(r.a[2]), Len(r.a[1]))
    [] r.f = "AVO_HTI" -> (IsArr(r.a[5]) /\ IsArr(r.a[6])) => Table(r.o, Len(r.a[6]), Len(r.a[5])) \/ (Len(r.o) = 1 /\ Table(r.o[1], Len(r.a[6]), Len(r.a[5])))
    [] r.f = "Swiss_cheese" -> (IsArr(r.a[1]) /\ IsArr(r.a[2]) /\ IsArr(r.a[3])) => \A c \in 1..Len(r.o) : Table(r.o[c], Len(r.a[1]), Len(r.a[3]))
    [] OTHER -> TRUE

Value(r) ==
  IF Unspecified(r) THEN "skip"
  ELSE IF r.x # "" THEN "bad:raised " \o r.x
  ELSE LET sig == SigOf(r.m, r.f) IN
       IF MatchesF(r.f, r.a, sig, Expected(r.m, r.f, r.a), r.o) THEN IF LaidOut(r) THEN "ok" ELSE "bad:layout"
       ELSE IF HasAlt(r.m, r.f, r.a)
            THEN IF MatchesF(r.f, r.a, sig, Shipped(r.m, r.f, r.a), r.o)
                 THEN "known:" \o Alt(r.m, r.f, Force(Elem(sig, r.a, 1)))[1] ELSE "bad:value"
            ELSE "bad:value"

\* ------------------------------------------------------------- purity
PureTol == R("1e-11")
Pure(r) ==
  IF r.mut # <<>> THEN "bad:argument changed"
  ELSE IF r.env # <<>> THEN "bad:global setting changed"
  ELSE IF r.drift # <<>> THEN "bad:earlier result changed"
  ELSE IF "z" \in DOMAIN r THEN "ok"     \* unusable arguments: the result is not specified
  ELSE IF (r.x = "") # (r.px = "") THEN "bad:depends on history"
  ELSE IF r.x # "" THEN "skip"
  ELSE IF CloseT(r.o, r.p, PureTol, PureTol*MaxAbs(r.p)) THEN "ok"
  ELSE "bad:depends on history"

\* ------------------------------------------------------------- laws on recorded results
LawTol(r) == IF Len(r.a) >= 3 THEN r.a[3] ELSE R("1e-7")
PartAgrees(x, y, k, t) ==   \* x: one result of an array call; y: the same of element k
  LET p == Squeeze(x)  q == Squeeze(y) IN
  IF KindOf(p) = "num" THEN CloseT(p, q, t, t*Tiny)
  ELSE KindOf(p) = "seq" /\ k <= Len(p) /\ CloseT(p[k], q, t, Tiny*MaxAbs(p))
ElemIn(big, small, k, t) ==
  LET q == Squeeze(small) IN
  IF KindOf(q) = "num" THEN PartAgrees(big, small, k, t)
  ELSE KindOf(big) = "seq" /\ Len(big) = Len(small) /\ \A c \in 1..Len(small) : PartAgrees(big[c], small[c], k, t)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MirPart(x, y, n, t) ==
  LET p == Squeeze(x)  q == Squeeze(y) IN
  IF KindOf(p) = "seq" /\ Len(p) = n /\ KindOf(q) = "seq" THEN CloseT(Rev(p), q, t, Tiny*MaxAbs(p)) ELSE CloseT(p, q, t, Tiny*MaxAbs(p))
Mirror(x, y, n, t) ==
  \/ MirPart(x, y, n, t)
  \/ KindOf(x) = "seq" /\ KindOf(y) = "seq" /\ Len(x) = Len(y) /\ \A c \in 1..Len(x) : MirPart(x[c], y[c], n, t)
Law(r) ==
  LET f == r.f IN
  CASE f = "eq" -> IF AgreeC(r.a[1], r.a[2], LawTol(r)) THEN "ok" ELSE "bad:results differ"
    [] f = "le" -> LET x == Flat(r.a[1])  y == Flat(r.a[2])  t == LawTol(r)*(MaxAbs(r.a[1]) + MaxAbs(r.a[2])) IN
                     IF Len(x) = Len(y) /\ \A i \in 1..Len(x) : IsNaN(x[i]) \/ IsNaN(y[i]) \/ x[i] <= y[i] + t
                     THEN "ok" ELSE "bad:order violated"
    \* a: the result of an array call, that of element k alone, k, tolerance
    [] f = "elem" -> IF ElemIn(r.a[1], r.a[2], r.a[3], r.a[4]) THEN "ok" ELSE "bad:element differs from the call on that element"
    [] f = "mirror" -> IF Mirror(r.a[1], r.a[2], r.a[3], r.a[4]) THEN "ok" ELSE "bad:order of the elements matters"
    [] OTHER -> "bad:unknown law"

Verdict(r) ==
  IF "skip" \in DOMAIN r \/ r.f = "new" \/ r.f = NotJudged \/ (OnlyJudged # "" /\ r.f # OnlyJudged) THEN "skip"
  ELSE IF r.m = "law" THEN Law(r)
  ELSE IF Mode = "pure" THEN Pure(r)
  ELSE IF Mode = "laws" THEN IF r.x # "" THEN "bad:raised " \o r.x ELSE "skip"
  ELSE Value(r)

Judge(n) == LET d == Verdict(Trace[n]) IN
            IF Emit(VerdictFile, [i |-> Trace[n].i, v |-> d]) THEN d ELSE d
Init == l \in 1..NShards /\ v = "start"
Next == /\ l <= Len(Trace)
        /\ v' = Judge(l)
        /\ l' = l + NShards
Spec == Init /\ [][Next]_<<l, v>>
=============================================================================
