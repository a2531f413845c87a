-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* The client of the library: a state machine whose behaviours are         *)
(* histories of calls.  A call is a fresh one, a far one (wider ranges),   *)
(* one on the edges (special values), a slight change of the previous one, *)
(* an earlier one again, the previous one reordered, or one element of the *)
(* previous one.  TLC executes the machine and writes each call; the       *)
(* driver replays the calls on the real library.                           *)
(*                                                                         *)
(* rnd is a vector of random numbers in [0,1] drawn at each step: every    *)
(* decision of the next step is a function of it.                          *)
(***************************************************************************)
EXTENDS Lift

CONSTANTS OpList,   \* sequence of <<module, operation>>
          Burst,    \* calls per operation
          Mixed,    \* TRUE: operations in random order, FALSE: one after the other
          Parts,    \* number of elements of an array call that are called again on their own (0: none)
          BoxList,  \* operation -> other containers the arrays of a call may come in
          MaxLen,   \* largest array length
          Spoils    \* TRUE: some calls have unusable arguments (the history goes on after the failure)

VARIABLES op, cnt, ph, md, args, okv, tries, hist, id, calls, rnd
vars == <<op, cnt, ph, md, args, okv, tries, hist, id, calls, rnd>>
OutFile == Prop("vout", "/dev/null")

ASSUME Keep("ops", OpList) /\ Keep("boxes", BoxList)
Ops   == Kept("ops")
Boxes == Kept("boxes")
MM == Ops[op][1]
FF == Ops[op][2]
SS == SigOf(MM, FF)

U == RandReal(0, 1)
Draws == Force([i \in 1..26 |-> RandReal(0, 1)])
\* the x-th part of 1..n
PickInt(x, n) == LET k == Trunc(x*n) + 1 IN IF k > n THEN n ELSE k
PickOf(x, s)  == s[PickInt(x, Len(s))]

Lens == <<1, 2, 3, 5, 8, 12, 20, 40, 100, 330, 1500, 6000>>
LenOf(x, lo, cap) == LET c == IF cap < MaxLen THEN cap ELSE MaxLen
                     s == SelectSeq(Lens, LAMBDA k : lo <= k /\ k <= c)
                     k == PickInt(x, Len(s))
                 \* any length up to the next one
                 IN IF k = Len(s) \/ s[k] >= 330 THEN s[k] ELSE RandInt(s[k], s[k + 1] - 1)

\* ------------------------------------------------------------- drawing numbers
Lo(p, far) == IF ~far THEN p.lo ELSE IF p.lg THEN p.lo/10 ELSE IF p.lo < 0 THEN p.lo - (p.hi - p.lo)/2 ELSE p.lo/3
Hi(p, far) == IF ~far THEN p.hi ELSE IF p.lg THEN p.hi*10 ELSE p.hi + (p.hi - p.lo)/2
Cont(p, far) == IF p.lg THEN Exp(RandReal(Ln(Lo(p, far)), Ln(Hi(p, far)))) ELSE RandReal(Lo(p, far), Hi(p, far))
IntIn(p) == p.hi >= 1 /\ ToReal(Trunc(p.hi)) >= p.lo
IntNum(p) == LET l == IF ToReal(Trunc(p.lo)) >= p.lo THEN Trunc(p.lo) ELSE Trunc(p.lo) + 1
             IN  RandInt(l, Trunc(p.hi))
Num(p, m) ==
  IF m.edge /\ U < R("0.08") THEN (IF U < R("0.5") THEN p.lo ELSE p.hi)
  ELSE IF Len(p.sp) > 0 /\ U < (IF m.edge THEN R("0.6") ELSE R("0.1")) THEN p.sp[RandInt(1, Len(p.sp))]
  ELSE IF m.ints /\ IntIn(p) THEN IntNum(p)
  ELSE Cont(p, m.far /\ U < R("0.5"))
IncSeq(s) == [i \in 1..Len(s) |-> SumSeq(SubSeq(s, 1, i))]

\* shear stiffnesses: of the order of the others, or much smaller (open cracks)
Shear(lo, hi) == IF U < R("0.75") THEN RandReal(hi/3, hi) ELSE Exp(RandReal(Ln(lo), Ln(hi)))
Mat(name) ==
  CASE name = "HTI" -> HTI(RandReal(30, 80), RandReal(30, 80), RandReal(-14, 18), RandReal(5, 14), RandReal(5, 14))
    [] name = "VTI" -> VTI(RandReal(30, 80), RandReal(30, 80), RandReal(-14, 18), RandReal(5, 14), RandReal(5, 14))
    [] name = "ORT" -> Ortho(RandReal(30, 80), RandReal(30, 80), RandReal(30, 80), RandReal(-9, 14), RandReal(-9, 14),
                             RandReal(-9, 14), RandReal(5, 24), RandReal(5, 24), RandReal(5, 24))
    \* no symmetry of its own with respect to the axes
    [] name = "TRI" -> LET C == Force(Ortho(RandReal(30, 80), RandReal(30, 80), RandReal(30, 80), RandReal(-9, 14), RandReal(-9, 14),
                                            RandReal(-9, 14), RandReal(5, 24), RandReal(5, 24), RandReal(5, 24)))
                       IN IF U < R("0.3") THEN C ELSE Rotate(Force(Rotate(C, BondB(RandReal(0, 90), 1))), BondB(RandReal(0, 90), 3))
    [] name = "SDRY" -> MatInv(Force(Ortho(RandReal(8, 20), RandReal(8, 20), RandReal(8, 20), RandReal(1, 4), RandReal(1, 4),
                                     RandReal(1, 4), Shear(R("0.1"), 9), Shear(R("0.1"), 9), Shear(R("0.1"), 9))))
    [] name = "SSAT" -> MatInv(Force(Ortho(RandReal(30, 50), RandReal(30, 50), RandReal(30, 50), RandReal(8, 14), RandReal(8, 14),
                                     RandReal(8, 14), Shear(R("0.3"), 18), Shear(R("0.3"), 18), Shear(R("0.3"), 18))))
    [] name = "CSAT" -> Ortho(RandReal(30, 50), RandReal(30, 50), RandReal(30, 50), RandReal(8, 14), RandReal(8, 14),
                              RandReal(8, 14), Shear(R("0.3"), 18), Shear(R("0.3"), 18), Shear(R("0.3"), 18))

Normed(s) == LET t == SumSeq(s) IN [i \in 1..Len(s) |-> s[i]/t]
NearV(p, s) == [i \in 1..Len(s) |-> IF p.lo <= s[i] /\ s[i] <= p.hi THEN s[i] ELSE s[1]]
DrawP(p, m, arr) ==
  CASE p.k = "e" -> IF arr THEN [i \in 1..m.n |-> Num(p, m)] ELSE Num(p, m)
    [] p.k = "a" -> [i \in 1..m.n |-> Num(p, m)]
    [] p.k = "s" -> Num(p, m)
    [] p.k = "i" -> RandInt(p.lo, p.hi)
    [] p.k = "c" -> p.opt[RandInt(1, Len(p.opt))]
    [] p.k = "v" -> IF m.close THEN LET x == Num(p, m) IN NearV(p, Force([i \in 1..m.vn |-> IF i = 1 THEN x ELSE x*(1 + RandReal(R("-0.03"), R("0.03")))]))
                    ELSE [i \in 1..m.vn |-> Num(p, m)]
    [] p.k = "f" -> Normed(Force([i \in 1..m.vn |-> RandReal(p.lo, p.hi)]))
    [] p.k = "g" -> LET k == IF m.rows THEN 1 + m.vn ELSE 1
                        rws == Force([q \in 1..k |-> Normed(Force([i \in 1..m.vn |-> IF i > 1 /\ U < R("0.07") THEN R("0") ELSE RandReal(p.lo, p.hi)]))])
                    IN IF m.rows THEN rws ELSE rws[1]
    [] p.k = "d" -> LET s == Force([i \in 1..(m.vn + 1) |-> RandReal(p.lo, p.hi)]) IN IncSeq(s)
    [] p.k = "u" -> LET s == Force([i \in 1..(m.vn + 1) |-> IF i = 1 /\ Len(p.sp) > 0 /\ U < R("0.25") THEN R("0") ELSE RandReal(p.lo, p.hi/2)]) IN SortR(s)
    [] p.k = "t" -> [i \in 1..Len(p.opt) |-> RandReal(p.opt[i][1], p.opt[i][2])]
    [] p.k = "m" -> Mat(p.opt)

\* ------------------------------------------------------------- modes
HasA(s) == \E j \in 1..Len(s.p) : s.p[j].k = "a"
HasE(s) == \E j \in 1..Len(s.p) : s.p[j].k = "e"
\* the arrays of a call may come in other containers when they are the only vectors of the call
Shapable(s) == ~s.w /\ s.n > 1 /\ \A j \in 1..Len(s.p) : s.p[j].k \in {"e", "a", "s", "i", "c"}
ModeOf(s, x) ==
  LET kind == IF x[1] < R("0.62") THEN "plain" ELSE IF x[1] < R("0.75") THEN "far" ELSE IF x[1] < R("0.9") THEN "edge" ELSE "ints"
      arr == HasA(s) \/ (HasE(s) /\ x[2] < R("0.6") /\ s.n >= 1)
      n == IF arr THEN LenOf(x[3], s.nlo, s.n) ELSE 0
      k0 == PickInt(x[4], Len(s.p))
  IN [n |-> n, vn |-> IF s.vb > 0 /\ x[8] < R("0.07") THEN s.vb + PickInt(x[5], 60) ELSE s.vlo + Trunc(x[5]*(s.vhi - s.vlo + 1)*R("0.999")),
      far |-> kind = "far" /\ s.far, edge |-> kind = "edge", ints |-> kind = "ints",
      \* which elementwise parameters are arrays
      am |-> [j \in 1..Len(s.p) |-> n > 0 /\ (~s.mix \/ x[6] < R("0.4") \/ j = k0 \/ x[6 + (j % 12)] < R("0.5"))],
      rows |-> x[19] < R("0.4"), close |-> x[9] < R("0.1"),
      na |-> s.req + Trunc(x[20]*(Len(s.p) - s.req + 1)*R("0.999")),
      ord |-> PickOf(x[21], <<"none", "none", "none", "asc", "desc", "dup">>),
      box |-> IF n > 1 /\ Shapable(s) THEN PickOf(x[22], <<"nd", "nd", "nd", "sc", "re", "re", "ro", "nc", "np">> \o Boxes[op])
              ELSE PickOf(x[22], <<"nd", "nd", "sc", "re", "ro", "nc", "np">>)]
\* at least one array among the elementwise parameters when n > 0
NeedArr(s, m) == m.n > 0 /\ \A j \in 1..m.na : ~(IsLift(s.p[j]) /\ (s.p[j].k = "a" \/ m.am[j]))
DrawArgs(s, m) ==
  Force([j \in 1..m.na |-> DrawP(s.p[j], m, m.am[j] \/ (NeedArr(s, m) /\ s.p[j].k = "e"))])

\* one parameter takes the value of another (equal phases, a porosity at a threshold, ...)
TieOk(p, q, x) == /\ p.k \in {"e", "s", "a"} /\ q.k \in {"e", "s", "a"} /\ KindOf(x) = "num"
                  /\ q.lo <= x /\ x <= q.hi
FirstOf0(x) == IF IsArr(x) THEN x[1] ELSE x
NearOnes(x) == PickOf(x, <<1, 1, 1 + R("0.000001"), 1 - R("0.000001"), 1 + R("0.001"), 1 - R("0.001"), 1 + R("0.02"), 1 - R("0.02")>>)
NearOf(x, c) == IF c = 1 THEN x ELSE x*c
Tied(s, a, x, y) ==
  LET i == PickInt(x, Len(a))  j == PickInt(y, Len(a))  nr == NearOnes(rnd[15])  FirstOf(z) == NearOf(FirstOf0(z), nr) IN
  IF i # j /\ s.p[i].k = "t" /\ s.p[j].k = "t" THEN [a EXCEPT ![j] = [n \in 1..Len(a[i]) |-> NearOf(a[i][n], nr)]]
  ELSE IF i = j \/ ~TieOk(s.p[i], s.p[j], FirstOf(a[i])) THEN a
  ELSE [a EXCEPT ![j] = IF ~IsArr(@) THEN FirstOf(a[i])
                        ELSE IF IsArr(a[i]) /\ Len(a[i]) = Len(@) /\ \A n \in 1..Len(a[i]) : TieOk(s.p[i], s.p[j], a[i][n]) THEN [n \in 1..Len(a[i]) |-> NearOf(a[i][n], nr)]
                        ELSE [@ EXCEPT ![1] = FirstOf(a[i])]]
\* ------------------------------------------------------------- permuting elements
Reindex(s, a, ix) ==
  Force([j \in 1..Len(a) |-> IF IsLift(s.p[j]) /\ IsArr(a[j]) /\ Len(a[j]) > 1 THEN [i \in 1..Len(ix) |-> a[j][ix[i]]] ELSE a[j]])
FirstArr(s, a) == CHOOSE j \in 1..Len(a) : /\ IsLift(s.p[j]) /\ IsArr(a[j])
                                           /\ \A q \in 1..(j-1) : ~(IsLift(s.p[q]) /\ IsArr(a[q]))
Ordered(s, a, ord) ==
  LET n == CallLen(s, a) IN
  IF n < 2 \/ s.w \/ ord = "none" THEN a
  ELSE LET key == a[FirstArr(s, a)]
           up == ArgSort(key)
       IN  Reindex(s, a, CASE ord = "asc" -> up
                           [] ord = "desc" -> [i \in 1..n |-> up[n + 1 - i]]
                           [] ord = "dup" -> [i \in 1..n |-> IF i % 2 = 0 THEN 1 ELSE i])

\* ------------------------------------------------------------- slight changes
Delta == PickOf(U, <<R("0.00002"), R("0.001"), R("-0.01"), R("0.05")>>)
NudgeNum(x) == IF KindOf(x) # "num" THEN x ELSE x*(1 + Delta)
\* parameter j, element i changed
Nudged(s, a, j, x) ==
  [q \in 1..Len(a) |->
     IF q # j THEN a[q]
     ELSE CASE s.p[q].k \in {"e", "s", "a"} ->
                 IF IsArr(a[q]) THEN [i \in 1..Len(a[q]) |-> IF i = PickInt(x, Len(a[q])) THEN NudgeNum(a[q][i]) ELSE a[q][i]]
                 ELSE NudgeNum(a[q])
            [] s.p[q].k = "v" -> [i \in 1..Len(a[q]) |-> IF i = PickInt(x, Len(a[q])) THEN NudgeNum(a[q][i]) ELSE a[q][i]]
            [] s.p[q].k \in {"i", "c"} -> DrawP(s.p[q], md, FALSE)
            [] OTHER -> a[q]]

\* a log with a gap: one element of one array is missing (only where elements are compared)
Gapped(s, a) ==
  LET j == PickInt(rnd[13], Len(a)) IN
  IF Parts = 0 \/ rnd[14] > R("0.25") \/ ~IsLift(s.p[j]) \/ ~IsArr(a[j]) \/ Len(a[j]) < 3 THEN a
  ELSE [a EXCEPT ![j][PickOf(rnd[15], <<1, 2, Len(a[j])>>)] = NaN]
Last == hist[op][Len(hist[op])]
\* ------------------------------------------------------------- the machine
NoMode == [n |-> 0, vn |-> 0, far |-> FALSE, edge |-> FALSE, ints |-> FALSE, am |-> <<>>, rows |-> FALSE, close |-> FALSE, na |-> 0, ord |-> "none", box |-> "nd"]
Init ==
  /\ op = 1 /\ cnt = 0 /\ ph = "pick" /\ md = NoMode /\ args = <<>> /\ okv = <<>> /\ tries = 0 /\ id = 0 /\ calls = 0
  /\ hist = [o \in 1..Len(Ops) |-> <<>>]
  /\ rnd = [i \in 1..24 |-> R("0")]

Pick ==
  /\ ph = "pick" /\ (~Mixed => op <= Len(Ops)) /\ calls < Burst*Len(Ops)
  /\ rnd' = Draws
  /\ op' = IF Mixed THEN (IF U < R("0.35") THEN op ELSE RandInt(1, Len(Ops))) ELSE IF cnt >= Burst THEN op + 1 ELSE op
  /\ cnt' = IF ~Mixed /\ cnt >= Burst THEN 0 ELSE cnt
  /\ ph' = IF op' > Len(Ops) THEN "done" ELSE "draw"
  /\ UNCHANGED <<md, args, okv, tries, hist, id, calls>>

Known == Len(hist[op]) > 0
Spoiling == Spoils /\ Known /\ rnd[25] < R("0.2")
Fresh ==
  /\ ph = "draw" /\ ~Spoiling /\ (Known => rnd[23] < R("0.52"))
  /\ md' = ModeOf(SS, rnd)
  /\ args' = LET d == DrawArgs(SS, md') IN IF rnd[18] < R("0.2") THEN Force(Tied(SS, d, rnd[16], rnd[17])) ELSE d
  /\ okv' = <<>> /\ tries' = 0 /\ ph' = "fix"
  /\ UNCHANGED <<op, cnt, hist, id, rnd, calls>>
Nudge ==
  /\ ph = "draw" /\ ~Spoiling /\ Known /\ rnd[23] >= R("0.52") /\ rnd[23] < R("0.78")
  /\ args' = Force(Nudged(SS, Last, PickInt(rnd[24], Len(Last)), rnd[22]))
  /\ md' = [md EXCEPT !.n = CallLen(SS, Last), !.ord = "none", !.box = PickOf(rnd[21], <<"nd", "re", "re", "ro", "np", "sc">>)]
  /\ okv' = <<>> /\ tries' = 90 /\ ph' = "fix"
  /\ UNCHANGED <<op, cnt, hist, id, rnd, calls>>
Recall ==
  /\ ph = "draw" /\ ~Spoiling /\ Known /\ rnd[23] >= R("0.78") /\ rnd[23] < R("0.88")
  /\ args' = PickOf(rnd[24], hist[op])
  /\ md' = [md EXCEPT !.n = 0, !.ord = "none", !.box = PickOf(rnd[21], <<"nd", "ro", "nc", "sc", "sc">>)]
  /\ ph' = "emit"
  /\ UNCHANGED <<op, cnt, hist, id, rnd, okv, tries, calls>>
Reorder ==
  /\ ph = "draw" /\ ~Spoiling /\ Known /\ rnd[23] >= R("0.88") /\ rnd[23] < R("0.94")
  /\ args' = Ordered(SS, Last, PickOf(rnd[24], <<"asc", "desc", "dup">>))
  /\ md' = [md EXCEPT !.n = 0, !.ord = "none", !.box = PickOf(rnd[21], <<"nd", "re">>)]
  /\ ph' = "emit"
  /\ UNCHANGED <<op, cnt, hist, id, rnd, okv, tries, calls>>
\* a call with an unusable argument: whatever it does, it must not disturb the others
SpoiledArg(v) ==
  IF IsArr(v) /\ Len(v) > 0 THEN PickOf(U, << v \o <<v[1]>>, [i \in 1..Len(v) |-> v[Len(v) + 1 - i]], [i \in 1..Len(v) |-> v[Len(v) + 1 - i]], [i \in 1..Len(v) |-> v[Len(v) + 1 - i]], <<>>, [i \in 1..Len(v) |-> NaN], None, "unusable" >>)
  ELSE PickOf(U, << None, "unusable", <<1, 2>>, NaN, 0, -1 >>)
Spoil ==
  /\ ph = "draw" /\ Spoiling
  /\ args' = LET arr == SelectSeq([i \in 1..Len(Last) |-> i], LAMBDA i : IsArr(Last[i]))
                 at  == IF rnd[22] < R("0.7") /\ Len(arr) > 0 THEN PickOf(rnd[24], arr) ELSE PickInt(rnd[24], Len(Last))
             IN  Force([Last EXCEPT ![at] = SpoiledArg(@)])
  /\ ph' = "spoilt"
  /\ UNCHANGED <<op, md, cnt, hist, id, rnd, okv, tries, calls>>
EmitSpoilt ==
  /\ ph = "spoilt"
  /\ Emit(OutFile, [i |-> id + 1, m |-> MM, f |-> FF, a |-> args, h |-> PickOf(rnd[26], <<"nd", "np">>), z |-> 1])
  /\ id' = id + 1 /\ ph' = "pick"
  /\ UNCHANGED <<op, md, args, okv, tries, hist, rnd, cnt, calls>>
\* one element of the previous call, as a call of its own
Single ==
  /\ ph = "draw" /\ ~Spoiling /\ Known /\ rnd[23] >= R("0.94")
  /\ args' = LET n == CallLen(SS, Last) IN
             IF n = 0 \/ SS.w \/ HasA(SS) THEN Last ELSE Force(Elem(SS, Last, PickInt(rnd[24], n)))
  /\ md' = [md EXCEPT !.n = 0, !.ord = "none", !.box = PickOf(rnd[21], <<"nd", "np">>)]
  /\ ph' = "emit"
  /\ UNCHANGED <<op, cnt, hist, id, rnd, okv, tries, calls>>

\* elements outside the domain are drawn again
Fix ==
  /\ ph = "fix"
  /\ LET n == CallLen(SS, args)  whole == SS.w \/ n = 0
         N == IF whole THEN 1 ELSE n
         el(i) == IF whole THEN args ELSE Force(Elem(SS, args, i))
         ok == Force([i \in 1..N |-> IF okv # <<>> /\ okv[i] THEN TRUE ELSE ElemOk(MM, FF, SS, el(i))])
     IN  okv' = ok
  /\ ph' = "redraw"
  /\ UNCHANGED <<op, cnt, md, args, tries, hist, id, rnd, calls>>
AllOk == \A i \in 1..Len(okv) : okv[i]
SomeOk == \E i \in 1..Len(okv) : okv[i]
Accept ==
  /\ ph = "redraw" /\ AllOk
  /\ args' = Gapped(SS, Ordered(SS, args, md.ord))
  /\ ph' = "emit" /\ UNCHANGED <<op, cnt, md, okv, tries, hist, id, rnd, calls>>
Redraw ==
  /\ ph = "redraw" /\ ~AllOk /\ tries < 16
  /\ tries' = tries + 1 /\ ph' = "fix"
  /\ IF Len(okv) = 1 \/ (tries % 4 = 3 /\ ~SomeOk)
     THEN args' = DrawArgs(SS, IF tries > 6 THEN [md EXCEPT !.far = FALSE] ELSE md)  /\ okv' = <<>>
     ELSE /\ args' = Force([j \in 1..Len(args) |-> IF IsLift(SS.p[j]) /\ IsArr(args[j]) /\ Len(args[j]) > 1
                               THEN [i \in 1..Len(args[j]) |-> IF okv[i] THEN args[j][i] ELSE Num(SS.p[j], md)] ELSE args[j]])
          /\ okv' = okv
  /\ UNCHANGED <<op, cnt, md, hist, id, rnd, calls>>
\* give the bad elements up, or the whole call
Drop ==
  /\ ph = "redraw" /\ ~AllOk /\ tries >= 16
  /\ IF Len(okv) > 1 /\ SomeOk
     THEN /\ args' = Reindex(SS, args, SelectSeq(Seq1(Len(okv)), LAMBDA i : okv[i]))
          /\ ph' = "emit" /\ cnt' = cnt
     ELSE args' = args /\ ph' = "pick" /\ cnt' = cnt + 1
  /\ UNCHANGED <<op, md, okv, tries, hist, id, rnd, calls>>

FlattenPairs(s) == [i \in 1..(2*Len(s)) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2][1] ELSE s[i \div 2][2]]
Rec(k, a, h) == [i |-> k, m |-> MM, f |-> FF, a |-> a, h |-> h]
Ref(k) == [ref |-> <<k>>]
LawRec(k, f, a) == [i |-> k, m |-> "law", f |-> f, a |-> a, h |-> ""]
\* element i as a call of its own (parameters that must be arrays get an array of one)
One(s, a, i) == Force([j \in 1..Len(a) |-> IF s.p[j].k = "a" THEN <<a[j][i]>>
                                          ELSE IF IsLift(s.p[j]) /\ IsArr(a[j]) THEN a[j][IF Len(a[j]) = 1 THEN 1 ELSE i] ELSE a[j]])
\* what follows an array call when elements are compared: single elements, the call
\* backwards, and the call with its arrays in other containers, each with its law
Follow ==
  LET n == CallLen(SS, args)  t == MaxR(SS.t, R("1e-7"))
      ks == <<1, n>> \o [q \in 1..Parts |-> PickInt(rnd[10 + q], n)]
      bx == Boxes[op]
      rev == [q \in 1..n |-> n + 1 - q]
  IN  IF Parts = 0 \/ n < 2 \/ SS.w THEN <<>>
      ELSE FlattenPairs([q \in 1..Len(ks) |->
               << Rec(id + 2*q, One(SS, args, ks[q]), PickOf(rnd[5 + q], <<"nd", "np">>)),
                  LawRec(id + 2*q + 1, "elem", <<Ref(id + 1), Ref(id + 2*q), ks[q], t>>) >>])
           \o << Rec(id + 2*Len(ks) + 2, Reindex(SS, args, rev), "nd"),
                 LawRec(id + 2*Len(ks) + 3, "mirror", <<Ref(id + 1), Ref(id + 2*Len(ks) + 2), n, t>>) >>
           \o FlattenPairs([q \in 1..Len(bx) |->
               << Rec(id + 2*Len(ks) + 2 + 2*q, args, bx[q]),
                  LawRec(id + 2*Len(ks) + 3 + 2*q, "eq", <<Ref(id + 1), Ref(id + 2*Len(ks) + 2 + 2*q), t>>) >>])
EmitAll(q) == \A j \in 1..Len(q) : Emit(OutFile, q[j])
EmitCall ==
  /\ ph = "emit"
  /\ LET fo == Force(Follow) IN
     /\ Emit(OutFile, Rec(id + 1, args, md.box))
     /\ EmitAll(fo)
     /\ id' = id + 1 + Len(fo)
  /\ cnt' = cnt + 1 /\ calls' = calls + 1 /\ ph' = "pick"
  /\ hist' = [hist EXCEPT ![op] = IF Len(@) >= 5 THEN Append(Tail(@), args) ELSE Append(@, args)]
  /\ UNCHANGED <<op, md, args, okv, tries, rnd>>

Next == Pick \/ Fresh \/ Nudge \/ Recall \/ Reorder \/ Spoil \/ EmitSpoilt \/ Single \/ Fix \/ Accept \/ Redraw \/ Drop \/ EmitCall
Spec == Init /\ [][Next]_vars
=============================================================================
