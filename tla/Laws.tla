-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, as laws of the specification.  The specified result of  *)
(* an operation is a formula; the laws say, independently of the formula,  *)
(* what the properties promise of it: bounds contain each other, relations *)
(* are satisfied, substitutions are path independent, rotations compose,   *)
(* limits are attained, boundary conditions hold, ...                      *)
(*                                                                         *)
(* Broken(m, f, x, u): the name of the first law that the result u of      *)
(* operation f of module m for the arguments x of one element violates, or *)
(* "" .  TLC checks that it is "" in every state of the client machine in  *)
(* which a call is made (invariant Lawful).  The laws are evaluated on the *)
(* specification; conformance carries them over to the library.            *)
(***************************************************************************)
EXTENDS Lift

\* the first law that fails
FirstBroken(s) == LET b == SelectSeq(s, LAMBDA c : ~c[2]) IN IF Len(b) = 0 THEN "" ELSE b[1][1]

Eq(a, b)     == CloseT(a, b, R("1e-6"), R("1e-9")*(1 + MaxAbs(a)))
EqT(a, b, t) == CloseT(a, b, t, t*R("0.01")*MaxAbs(a))
Leq(a, b)    == a <= b + R("1e-9")*(Abs(a) + Abs(b)) + R("1e-12")
Between(x, a, b) == Leq(MinR(a, b), x) /\ Leq(x, MaxR(a, b))
Pos(x) == x > 0
Zeros(n) == [i \in 1..n |-> [j \in 1..n |-> R("0")]]
Sub(a, j, v) == [a EXCEPT ![j] = v]
RotZ(t) == BondB(t, 3)
RotX(t) == BondB(t, 1)
\* rotation about x2 by t
RotY(t) == LET c == Cos(Deg(t))  s == Sin(Deg(t)) IN << <<c, 0, s>>, <<0, 1, 0>>, <<-s, 0, c>> >>
Symm(M) == Eq(M, Transp(M))
\* the invariants of a stiffness under rotation
CIso1(C) == SumSeq([k \in 1..9 |-> C[((k-1) \div 3) + 1][((k-1) % 3) + 1]])
CIso2(C) == C[1][1] + C[2][2] + C[3][3] + 2*(C[4][4] + C[5][5] + C[6][6])
\* bulk and shear modulus of the isotropic average of C
IsoAvg(C) == LET a == CIso1(C)  b == CIso2(C) IN << a/9, (3*b - a)/30 >>

\* ------------------------------------------------------------- utils
LawUtils(f, x, u) ==
  CASE f = "V" -> FirstBroken(<<
         <<"the moduli come back from the velocities", x[3] <= 0 \/ Eq(CallUtils("M_from_V", <<x[3], u[1], u[2]>>), <<x[1], x[2]>>)>>,
         <<"P is faster than S for a positive bulk modulus", x[1] <= 0 \/ u[1] >= u[2]>> >>)
    [] f = "M_from_V" -> FirstBroken(<<
         <<"the velocities come back from the moduli", u[1] + (4*u[2])/3 <= 0 \/ Eq(CallUtils("V", <<u[1], u[2], x[1]>>), <<x[2], x[3]>>)>> >>)
    [] f = "poi" -> FirstBroken(<<
         <<"Poisson ratio from the velocities",
           LET v == CallUtils("V", <<x[1], x[2], R("2.5")>>)  p == v[1]*v[1]  s == v[2]*v[2] IN Eq(u[1], (p - 2*s)/(2*(p - s)))>>,
         <<"range", x[1] <= 0 \/ (u[1] <= Half + R("1e-9") /\ u[1] >= -1 - R("1e-9"))>> >>)
    [] f = "lame" -> FirstBroken(<<
         <<"lambda is rho (vp^2 - 2 vs^2)",
           LET v == CallUtils("V", <<x[1], x[2], R("2.5")>>) IN Eq(u[1], (R("2.5")*(v[1]*v[1] - 2*v[2]*v[2]))/1000000)>> >>)
    [] f \in {"write_VTI_matrix", "write_VTI_compliance"} -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"invariant under rotation about x3",
           LET C == IF f = "write_VTI_matrix" THEN u[1] ELSE Force(MatInv(u[1])) IN EqT(C, Rotate(C, RotZ(x[1]*37)), R("1e-6"))>> >>)
    [] f = "write_HTI_matrix" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"invariant under rotation about x1", EqT(u[1], Rotate(u[1], RotX(x[1]*37)), R("1e-6"))>> >>)
    [] f = "write_iso" -> FirstBroken(<<
         <<"invariant under every rotation", EqT(u[1], Rotate(Force(Rotate(u[1], RotX(x[1]*37))), RotZ(x[1]*53)), R("1e-6"))>>,
         <<"bulk and shear modulus", Eq(IsoAvg(u[1]), <<x[1], x[2]>>)>> >>)
    [] f = "write_matrix" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"orthotropic: unchanged by half turns", Eq(u[1], Rotate(Rotate(u[1], RotZ(180)), RotX(180)))>> >>)
    [] f = "v_to_c_VTI" -> FirstBroken(<<
         <<"the P velocities at 0, 45 and 90 degrees",
           Eq(<<VelVTI(u[1], x[6], 0)[1], VelVTI(u[1], x[6], 45)[1], VelVTI(u[1], x[6], 90)[1]>>, <<x[1], x[2], x[3]>>)
           \/ x[4] > x[1] \/ x[4] > x[3]>>,
         <<"the SH velocity at 90 degrees", Eq(VelVTI(u[1], x[6], 90)[2], x[5])>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- Anisotropy
LawAniso(f, x, u) ==
  CASE f = "Thomsen" -> FirstBroken(<<
         <<"vertical velocities", LET v == CallAniso(f, Sub(x, 7, 0)) IN Eq(<<v[1], v[2], v[3]>>, <<1000*Sqrt(x[2]/x[6]), 1000*Sqrt(x[4]/x[6]), 1000*Sqrt(x[4]/x[6])>>)>>,
         <<"horizontal P velocity to first order in epsilon",
           LET v == CallAniso(f, Sub(x, 7, 90)) IN Eq(v[1], 1000*Sqrt(x[2]/x[6])*(1 + u[4]))>>,
         <<"isotropic rock has no anisotropy",
           LET v == CallAniso(f, <<x[2], x[2], x[2] - 2*x[4], x[4], x[4], x[6], x[7]>>) IN Eq(<<v[4], v[5], v[6]>>, <<0, 0, 0>>)>>,
         <<"to first order in the anisotropy these are the exact velocities",
           LET d == R("0.0001")  c11 == x[2]*(1 + 2*d)  c66 == x[4]*(1 - 2*d)  c13 == x[2] - 2*x[4] + d*x[2]
               w == CallAniso(f, <<c11, x[2], c13, x[4], c66, x[6], x[7]>>)
               e == VelVTI(VTI(c11, x[2], c13, x[4], c66), x[6], x[7])
           IN x[4] > R("0.45")*x[2] \/ CloseT(<<w[1], w[2], w[3]>>, <<1000*e[1], 1000*e[3], 1000*e[2]>>, R("1e-6"), 0)>> >>)
    [] f = "Thomsen_Tsvankin" -> FirstBroken(<<
         <<"a VTI medium has the parameters of Thomsen in both planes",
           LET v == CallAniso(f, <<x[1], x[1], x[3], x[1] - 2*x[9], x[5], x[5], x[7], x[7], x[9]>>)
               w == CallAniso("Thomsen", <<x[1], x[3], x[5], x[7], x[9], 2, 0>>)
           IN Eq(<<v[1], v[2], v[3], v[4], v[5], v[6], v[7]>>, <<w[4], w[6], w[5], w[4], w[6], w[5], DeltaOf(x[1], x[1] - 2*x[9], x[9])>>)>> >>)
    [] f = "Backus" -> FirstBroken(<<
         <<"independent of the order of the layers",
           LET n == Len(x[1])  r(s) == [i \in 1..n |-> s[n + 1 - i]] IN Eq(u, CallAniso(f, <<r(x[1]), r(x[2]), r(x[3])>>))>>,
         <<"independent of the subdivision of the layers",
           LET h(s) == s \o <<s[1]>> IN
           Eq(u, CallAniso(f, <<Append([x[1] EXCEPT ![1] = @/4], (3*x[1][1])/4), h(x[2]), h(x[3])>>))>>,
         <<"one material is isotropic",
           LET n == Len(x[1])  l == x[2][1]  g == x[3][1]
               v == CallAniso(f, <<x[1], [i \in 1..n |-> l], [i \in 1..n |-> g]>>)
           IN Eq(v, <<l + 2*g, l + 2*g, l, g, g>>)>>,
         <<"layering stiffens the shear along the layers", Leq(u[4], u[5])>>,
         <<"stable", u[4] <= 0 \/ PosDef(Force(VTI(u[1], u[2], u[3], u[4], u[5])))>> >>)
    [] f = "Backus_log" -> FirstBroken(<<
         <<"the density is within the layers'", Between(u[6], MinSeq(x[3]), MaxSeq(x[3]))>>,
         <<"the average of the layers' moduli",
           LET n == Len(x[1]) IN
           Eq(SubSeq(u, 1, 5), CallAniso("Backus", <<[i \in 1..n |-> x[4][i+1] - x[4][i]], [i \in 1..n |-> (x[1][i]*x[1][i] - 2*x[2][i]*x[2][i])*x[3][i]],
                                                   [i \in 1..n |-> x[2][i]*x[2][i]*x[3][i]]>>))>>,
         <<"only the thicknesses matter", Eq(u, CallAniso(f, Sub(x, 4, [i \in 1..Len(x[4]) |-> 3*x[4][i] + 7])))>> >>)
    [] f \in {"vel_azi_HTI", "vel_azi_VTI"} -> FirstBroken(<<
         <<"the squares add up to the trace of the Christoffel matrix",
           LET t == Deg(x[3])
               n == IF f = "vel_azi_HTI" THEN <<Cos(t), Sin(t), R("0")>> ELSE <<Sin(t), R("0"), Cos(t)>>
               Ga == Christoffel(x[1], n)
           IN Eq(x[2]*(Sq(u[1]) + Sq(u[2]) + Sq(u[3])), Ga[1][1] + Ga[2][2] + Ga[3][3])>>,
         <<"period 180 degrees, even",
           Eq(u, CallAniso(f, Sub(x, 3, x[3] + 180))) /\ Eq(u, CallAniso(f, Sub(x, 3, -x[3])))>> >>)
    [] f = "Bond_trans" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"the isotropic invariants are kept", Eq(IsoAvg(u[1]), IsoAvg(x[1]))>>,
         <<"rotations compose",
           LET ax == IF Len(x) < 3 THEN 3 ELSE x[3]
           IN EqT(BondSpec(Force(BondSpec(x[1], x[2], ax)), 33, ax), BondSpec(x[1], x[2] + 33, ax), R("1e-6"))>>,
         <<"the waves rotate with the medium",
           LET ax == IF Len(x) < 3 THEN 3 ELSE x[3]
               b == BondB(x[2], ax)  n == <<R("0.48"), R("0.6"), R("0.64")>>
               m == [i \in 1..3 |-> SumSeq([k \in 1..3 |-> b[i][k]*n[k]])]
               G1 == Christoffel(x[1], n)  G2 == Christoffel(u[1], m)
           IN Eq(G1[1][1] + G1[2][2] + G1[3][3], G2[1][1] + G2[2][2] + G2[3][3])>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- EM
\* Eshelby's tensor of a spheroid of aspect ratio al (axis x3) in a matrix of Poisson ratio nu (Mura):
\* the normal part as a 3x3 matrix, the shear components S2323 = S1313 and S1212
EshN(nu, al) ==
  LET q == 8*Pi*(1 - nu)  b == 1 - 2*nu
      I1 == IF al < 1 THEN ((2*Pi*al)/((1 - al*al)^R("1.5")))*(Acos(al) - al*Sqrt(1 - al*al))
            ELSE ((2*Pi*al)/((al*al - 1)^R("1.5")))*(al*Sqrt(al*al - 1) - Ln(al + Sqrt(al*al - 1)))
      I3 == 4*Pi - 2*I1   I13 == (I3 - I1)/(1 - al*al)   I11 == Pi - I13/4   I33 == ((4*Pi)/(al*al) - 2*I13)/3
      a2 == al*al
  IN [n |-> << <<(3*I11 + b*I1)/q, (I11 - b*I1)/q, (a2*I13 - b*I1)/q>>,
               <<(I11 - b*I1)/q, (3*I11 + b*I1)/q, (a2*I13 - b*I1)/q>>,
               <<(I13 - b*I3)/q, (I13 - b*I3)/q, (3*a2*I33 + b*I3)/q>> >>,
      t |-> (((1 + a2)*I13 + b*(I1 + I3))/q)/2, s |-> ((2*I11 + 2*b*I1)/q)/2]
\* the strain in the inclusion per unit strain far away: normal 3x3 part, and the two shears
EshT(K, G, Ki, Gi, al) ==
  LET e == EshN(PoiR(K, G), al)  g == (Gi - G)/G  w == ((Ki - K)/K - g)/3
      M == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN g ELSE R("0")) + w]]
      SM == Force(MatMul(e.n, M))
  IN [n |-> Force(MatInv(Force([i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN 1 ELSE R("0")) + SM[i][j]]]))),
      t |-> 1/(1 + 2*e.t*g), s |-> 1/(1 + 2*e.s*g)]
EshPQ(K, G, Ki, Gi, al) ==
  LET t == EshT(K, G, Ki, Gi, al)  n == t.n
      P == (SumSeq(n[1]) + SumSeq(n[2]) + SumSeq(n[3]))/3
  IN << P, (n[1][1] + n[2][2] + n[3][3] + 2*t.t + t.s - P)/5 >>
\* a small concentration phi of aligned spheroids: C0 + phi (Ci - C0) T
EshDilute(K, G, Ki, Gi, al, phi) ==
  LET t == EshT(K, G, Ki, Gi, al)  dl == Lame(Ki, Gi) - Lame(K, G)  dg == Gi - G
      D == [i \in 1..3 |-> [j \in 1..3 |-> dl + (IF i = j THEN 2*dg ELSE 0)]]
      X == Force(MatMul(D, t.n))  l == Lame(K, G)
  IN << l + 2*G + phi*X[1][1], l + 2*G + phi*X[3][3], l + phi*X[1][3], G + phi*dg*t.t, G + phi*dg*t.s >>
\* Hudson's second order term C1 chi C1 / mu of a first order term with normal part N (3x3) and shear c44
HudChi(K, G, N, c44) ==
  LET kp == G/Pmod(K, G)
      Chi == [i \in 1..3 |-> [j \in 1..3 |-> (IF i = j THEN (4 + kp)/15 - (1 - kp)/15 ELSE R("0")) - (1 - kp)/15]]
      X == Force(MatMul(Force(MatMul(N, Chi)), N))
  IN << X[1][1]/G, X[1][3]/G, X[3][3]/G, ((2*(3 + 2*kp)*c44*c44)/15)/G >>
BoundsOk(f1, K1, K2, k) == Between(k, 1/(f1/K1 + (1 - f1)/K2), f1*K1 + (1 - f1)*K2)
LawEM(f, x, u) ==
  CASE f = "VRH" -> IF KindOf(x[1][1]) # "num" THEN "" ELSE FirstBroken(<<
         <<"the mean of the bounds", Eq(2*u[3], u[1] + u[2])>>, <<"Reuss <= Hill <= Voigt", Leq(u[2], u[3]) /\ Leq(u[3], u[1])>>,
         <<"within the phases", Between(u[1], MinSeq(x[2]), MaxSeq(x[2])) /\ Between(u[2], MinSeq(x[2]), MaxSeq(x[2]))>>,
         <<"equal phases", LET m == x[2][1] IN m <= 0 \/ Eq(CallEM(f, <<x[1], [i \in 1..Len(x[2]) |-> m]>>), <<m, m, m>>)>>,
         <<"order of the phases",
           LET n == Len(x[1])  r(s) == [i \in 1..n |-> s[n + 1 - i]] IN Eq(u, CallEM(f, <<r(x[1]), r(x[2])>>))>> >>)
    [] f = "HS" -> LET up == CallEM(f, <<x[1], x[2], x[3], x[4], x[5], "upper">>)
                       lo == CallEM(f, <<x[1], x[2], x[3], x[4], x[5], "lower">>) IN
         IF ~(x[1] >= 0 /\ x[1] <= 1) \/ x[4] < x[5] \/ x[2] < x[3] \/ x[3] <= 0 \/ x[5] < 0 THEN "" ELSE FirstBroken(<<
         <<"lower <= upper", Leq(lo[1], up[1]) /\ Leq(lo[2], up[2])>>,
         <<"between Reuss and Voigt", BoundsOk(x[1], x[2], x[3], up[1]) /\ BoundsOk(x[1], x[2], x[3], lo[1])
              /\ BoundsOk(x[1], x[4], x[5], up[2]) /\ BoundsOk(x[1], x[4], x[5], lo[2])>>,
         <<"end members", Eq(CallEM(f, Sub(x, 1, 1)), <<x[2], x[4]>>) /\ Eq(CallEM(f, Sub(x, 1, 0)), <<x[3], x[5]>>)>>,
         <<"exchanging the phases exchanges the bounds",
           Eq(up, CallEM(f, <<1 - x[1], x[3], x[2], x[5], x[4], "lower">>))>>,
         <<"equal shear moduli: Hill's formula",
           LET v == CallEM(f, <<x[1], x[2], x[3], x[4], x[4], "upper">>)
           IN Eq(1/(v[1] + (4*x[4])/3), x[1]/(x[2] + (4*x[4])/3) + (1 - x[1])/(x[3] + (4*x[4])/3))>> >>)
    [] f = "cripor" -> FirstBroken(<<
         <<"mineral and suspension", Eq(CallEM(f, Sub(x, 3, 0)), <<x[1], x[2]>>) /\ Eq(CallEM(f, Sub(x, 3, x[4])), <<0, 0>>)>> >>)
    [] f = "cripor_reuss" -> FirstBroken(<<
         <<"between the phases", ~(x[3] >= 0 /\ x[3] <= 1) \/ Between(u[1], x[1], x[2])>> >>)
    [] f = "Eshelby_Cheng" -> FirstBroken(<<
         <<"no cracks: the solid",
           LET c == CallEM(f, <<x[1], x[2], 0, x[4], x[5]>>)[1]  l == Lame(x[1], x[2])
           IN Eq(c, <<l + 2*x[2], l + 2*x[2], l, x[2], x[2]>>)>>,
         <<"linear in the porosity",
           LET c(p) == CallEM(f, <<x[1], x[2], p, x[4], x[5]>>)[1]  a == c(R("0")) b == c(R("0.01")) d == c(R("0.02")) IN
           Eq([i \in 1..5 |-> d[i] - a[i]], [i \in 1..5 |-> 2*(b[i] - a[i])])>>,
         <<"Eshelby's solution",
           x[4] < R("0.01") \/ CloseT(CallEM(f, <<x[1], x[2], x[3], x[4], x[5]>>)[1], EshDilute(x[1], x[2], x[5], R("0"), x[4], x[3]), R("1e-6"), R("1e-8"))>>,
         <<"dry flat cracks: Hudson's stiffness normal to the cracks",
           LET al == R("0.00001")  e == R("0.01")
               c == CallEM(f, <<x[1], x[2], (4*Pi*al*e)/3, al, 0>>)[1]
               h == HudsonSpec(x[1], x[2], 0, 0, al, e, 1, 3)
           IN CloseT(<<c[1], c[2], c[3], c[4]>>, <<h[1][1], h[3][3], h[1][3], h[4][4]>>, R("1e-3"), R("1e-3"))>> >>)
    [] f = "hudson" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"no cracks: the solid", Eq(CallEM(f, Sub(x, 6, 0))[1], IsoC(x[1], x[2]))>>,
         <<"the crack normal is the symmetry axis",
           LET a == CallEM(f, <<x[1], x[2], x[3], x[4], x[5], x[6], Ar(x, 7, 1), 3>>)[1]
               b == CallEM(f, <<x[1], x[2], x[3], x[4], x[5], x[6], Ar(x, 7, 1), 1>>)[1]
           IN Eq(Rotate(a, RotY(90)), b) /\ EqT(a, Rotate(a, RotZ(25)), R("1e-6"))>>,
         <<"the second order term",
           LET v(o, e) == CallEM(f, <<x[1], x[2], x[3], x[4], x[5], e, o, 3>>)[1]  e == R("0.05")
               a == v(1, e)  b == v(2, e)  z == IsoC(x[1], x[2])
               N == [i \in 1..3 |-> [j \in 1..3 |-> a[i][j] - z[i][j]]]
           IN CloseT(<<b[1][1] - a[1][1], b[1][3] - a[1][3], b[3][3] - a[3][3], b[4][4] - a[4][4]>>,
                     HudChi(x[1], x[2], N, a[4][4] - z[4][4]), R("1e-6"), R("1e-8"))>>,
         <<"dry flat cracks: Eshelby's solution",
           LET al == R("0.00001")  e == R("0.01")  v == CallEM(f, <<x[1], x[2], 0, 0, al, e, 1, 3>>)[1] IN
           CloseT(<<v[1][1], v[3][3], v[1][3], v[4][4]>>, SubSeq(EshDilute(x[1], x[2], 0, 0, al, (4*Pi*al*e)/3), 1, 4), R("1e-3"), R("1e-3"))>>,
         <<"first order: softer", Ar(x, 7, 1) = 2 \/ x[6] < 0 \/ x[1] <= 0 \/ (Leq(u[1][3][3], Pmod(x[1], x[2])) /\ Leq(u[1][5][5], x[2]))>> >>)
    [] f = "hudson_rand" -> FirstBroken(<<
         <<"the isotropic average of one crack set",
           LET h == HudsonSpec(x[1], x[2], x[3], x[4], x[5], x[6], 1, 3) IN Eq(u, IsoAvg(h))>> >>)
    [] f = "hudson_ortho" -> FirstBroken(<<
         <<"one set alone is the aligned set",
           Eq(CallEM(f, Sub(x, 6, <<R("0"), R("0"), x[6][3]>>))[1], HudsonSpec(x[1], x[2], x[3], x[4], x[5][3], x[6][3], 1, 3))
           /\ Eq(CallEM(f, Sub(x, 6, <<x[6][1], R("0"), R("0")>>))[1], HudsonSpec(x[1], x[2], x[3], x[4], x[5][1], x[6][1], 1, 1))>>,
         <<"the isotropic average is that of random cracks",
           LET r(i) == HudRand(x[1], x[2], x[3], x[4], x[5][i], x[6][i], FALSE) IN
           Eq(IsoAvg(u[1]), <<r(1)[1] + r(2)[1] + r(3)[1] - 2*x[1], r(1)[2] + r(2)[2] + r(3)[2] - 2*x[2]>>)>> >>)
    [] f = "hudson_cone" -> FirstBroken(<<
         <<"transversely isotropic", Eq(u[1][1][1] - 2*u[1][6][6], u[1][1][2])>>,
         <<"at 0 degrees the aligned set", Eq(CallEM(f, Sub(x, 7, 0))[1], HudsonSpec(x[1], x[2], x[3], x[4], x[5], x[6], 1, 3))>>,
         <<"the isotropic average is that of random cracks", Eq(IsoAvg(u[1]), HudRand(x[1], x[2], x[3], x[4], x[5], x[6], FALSE))>>,
         <<"the average over the directions of the cone",
           LET h == HudsonSpec(x[1], x[2], x[3], x[4], x[5], x[6], 1, 3)
               g == Force(Rotate(h, RotY(x[7])))
               s(i, j) == SumSeq([k \in 1..12 |-> Rotate(g, RotZ(30*k))[i][j]])/12
           IN CloseT(<<u[1][1][1], u[1][3][3], u[1][1][3], u[1][4][4], u[1][6][6]>>, <<s(1,1), s(3,3), s(1,3), s(4,4), s(6,6)>>, R("1e-6"), R("1e-7"))>> >>)
    [] f = "Dilute_crack" -> FirstBroken(<<
         <<"no cracks: the solid", Eq(CallEM(f, Sub(x, 3, 0)), <<x[1], x[2]>>)>>,
         <<"softer", x[3] < 0 \/ PoiR(x[1], x[2]) <= -1 \/ (Leq(u[1], x[1]) /\ Leq(u[2], x[2]))>>,
         <<"to first order the random cracks of Hudson",
           LET c == R("0.00001")  v == CallEM(f, Sub(x, 3, c))
               h == HudRand(x[1], x[2], R("0"), R("0"), R("0.001"), c, FALSE)
           IN CloseT(v, h, R("1e-6"), 0)>> >>)
    [] f = "OConnell_Budiansky" -> FirstBroken(<<
         <<"no cracks: the solid", Eq(CallEM(f, Sub(x, 3, 0)), <<x[1], x[2]>>)>>,
         <<"to first order the dilute cracks",
           LET c == R("0.00001") IN CloseT(CallEM(f, Sub(x, 3, c)), CrackDil(x[1], x[2], c), R("1e-6"), 0)>> >>)
    [] f = "OConnell_Budiansky_fl" -> FirstBroken(<<
         <<"both self-consistency equations",
           \* the Poisson ratio and D implied by the moduli
           LET nu == PoiR(u[1], u[2])  nu0 == PoiR(x[1], x[2])  w == (x[3]/x[5])/x[1]
               D == OCD(nu, x[4], nu0, w, FALSE)
           IN CloseT(OCRes(nu, D, x[4], nu0, w, FALSE), <<0, 0>>, 0, R("1e-5"))>>,
         <<"stable, softer than the solid", u[1] > 0 /\ u[2] > 0 /\ Leq(u[2], x[2])>> >>)
    [] f = "PQ" -> FirstBroken(<<
         <<"inclusions of the host", LET v == PQSpec(x[1], x[2], x[1], x[2], x[5], FALSE) IN CloseT(v, <<1, 1>>, R("1e-6"), 0)>>,
         <<"Eshelby's solution", Abs(x[5] - 1) < R("0.03") \/ CloseT(PQSpec(x[1], x[2], x[3], x[4], x[5], FALSE), EshPQ(x[1], x[2], x[3], x[4], x[5]), R("1e-6"), 0)>>,
         <<"spheres", Eq(PQSpec(x[1], x[2], x[3], x[4], 1, FALSE), <<(3*x[1] + 4*x[2])/(3*x[3] + 4*x[2]), 1/(1 + (1 - S2of(x[1], x[2]))*0 + S2of(x[1], x[2])*(x[4]/x[2] - 1))>>)>>,
         <<"near a sphere the sphere",
           x[5] < R("0.05") \/ LET e == R("0.001")  s == PQSpec(x[1], x[2], x[3], x[4], 1, FALSE) IN
           CloseT(PQSpec(x[1], x[2], x[3], x[4], 1 + e, FALSE), s, R("0.02"), 0) /\ CloseT(PQSpec(x[1], x[2], x[3], x[4], 1 - e, FALSE), s, R("0.02"), 0)>> >>)
    [] f = "Berryman_sc" -> FirstBroken(<<
         <<"the self-consistency equations", CloseT(BerrRes(u, x[1], x[2], x[3], x[4], FALSE), <<0, 0>>, 0, R("1e-4"))>>,
         <<"within the phases", Between(u[1], MinSeq(x[1]), MaxSeq(x[1])) /\ Between(u[2], MinSeq(x[2]), MaxSeq(x[2]))>> >>)
    [] f = "Berryman_DEM" -> FirstBroken(<<
         <<"the host at zero concentration", Eq(<<u[1][1], u[2][1]>>, <<x[1], x[2]>>)>>,
         <<"the equation at zero concentration",
           LET r == DEMrhs(<<x[1], x[2]>>, R("0"), x[3], x[4], x[5], FALSE)  h == R("0.01") IN
           Len(u[1]) < 3 \/ CloseT(<<(4*u[1][2] - u[1][3] - 3*u[1][1])/(2*h), (4*u[2][2] - u[2][3] - 3*u[2][1])/(2*h)>>, r, R("0.05"), R("0.01")*MaxAbs(r))>>,
         <<"the equation at every concentration",
           \A i \in 2..(Len(u[1]) - 1) :
             LET K == u[1][i]  G == u[2][i]  q == EshPQ(K, G, x[3], x[4], IF Abs(x[5] - 1) < R("0.03") THEN R("0.97") ELSE x[5])
                 r == <<((x[3] - K)*q[1])/(1 - R("0.01")*(i - 1)), ((x[4] - G)*q[2])/(1 - R("0.01")*(i - 1))>> IN
             i > 4 \/ CloseT(<<(u[1][i+1] - u[1][i-1])/R("0.02"), (u[2][i+1] - u[2][i-1])/R("0.02")>>, r, R("0.03"), R("0.01")*MaxAbs(r))>>,
         <<"towards the inclusions", \A i \in 1..(Len(u[1]) - 1) : x[3] >= x[1] \/ Leq(u[1][i+1], u[1][i])>> >>)
    [] f = "SC" -> FirstBroken(<<
         <<"no pores: the solid", Eq(CallEM(f, Sub(x, 1, 0)), <<x[2], x[3]>>)>>,
         <<"spherical pores in the effective medium",
           x[1] > R("0.3") \/ LET v == CallEM(f, Sub(x, 4, 400)) q == PQSpec(v[1], v[2], 0, 0, 1, FALSE) IN
           CloseT(<<1/v[1] - 1/x[2], 1/v[2] - 1/x[3]>>, <<(x[1]*q[1])/v[1], (x[1]*q[2])/v[2]>>, R("1e-4"), R("1e-9"))>>,
         <<"a sweep of the converged moduli changes nothing",
           x[4] < 59 \/ x[1] > R("0.3") \/ CloseT(SCStep(u, x[1], x[2], x[3]), u, R("1e-4"), R("1e-6"))>> >>)
    [] f = "SC_flex" -> FirstBroken(<<
         <<"no inclusions: the matrix", Eq(CallEM(f, Sub(x, 1, 0)), <<x[3], x[5]>>)>>,
         <<"few inclusions: the dilute estimate",
           LET f_ == R("1e-5")  d == SCDil(x[3], x[5], x[4], x[6], f_, "strain") IN
           CloseT(CallEM(f, Sub(x, 1, f_)), <<x[3]*d[1], x[5]*d[2]>>, R("1e-7")*(1 + Sq(x[4]/x[3]) + Sq(x[6]/x[5])), 0)>>,
         <<"inclusions of the matrix", Eq(CallEM(f, Sub(Sub(x, 4, x[3]), 6, x[5])), <<x[3], x[5]>>)>> >>)
    [] f = "SC_dilute" -> FirstBroken(<<
         <<"no inclusions: the matrix (normalised)", Eq(CallEM(f, Sub(x, 5, 0)), <<1, 1>>)>>,
         <<"isolated spheres",
           LET q == PQSpec(x[1], x[2], x[3], x[4], 1, FALSE) IN
           Eq(CallEM(f, Sub(x, 6, "strain")), <<1 - (x[5]*(x[1] - x[3])*q[1])/x[1], 1 - (x[5]*(x[2] - x[4])*q[2])/x[2]>>)>>,
         <<"stress and strain forms agree to first order",
           LET a == CallEM(f, Sub(Sub(x, 5, R("1e-5")), 6, "stress"))  b == CallEM(f, Sub(Sub(x, 5, R("1e-5")), 6, "strain")) IN
           CloseT(a, b, R("1e-5"), 0)>> >>)
    [] f = "MT_average" -> FirstBroken(<<
         <<"one phase", Eq(CallEM(f, Sub(x, 1, 1)), <<x[4], x[5]>>) /\ Eq(CallEM(f, Sub(x, 1, 0)), <<x[6], x[7]>>)>>,
         <<"exchanging the phases", Eq(CallEM(f, <<1 - x[1], x[2], x[3], x[6], x[7], x[4], x[5]>>), u)>>,
         <<"the lower or upper Hashin-Shtrikman bound when the matrix is a phase",
           LET v == CallEM(f, <<x[1], x[4], x[5], x[4], x[5], x[6], x[7]>>) IN
           x[4] <= 0 \/ x[5] <= 0 \/ x[6] <= 0 \/ x[7] <= 0 \/
           EqT(v, <<MixK(x[1], x[4], x[5], x[6], x[7], x[4], x[5]), MixG(x[1], x[4], x[5], x[6], x[7], x[4], x[5])>>, R("1e-6"))>> >>)
    [] f = "Swiss_cheese" -> FirstBroken(<<
         <<"spherical pores",
           LET K == At(x[1], 1)  G == At(x[2], 1)  p == x[3][1]  q == PQSpec(K, G, 0, 0, 1, FALSE) IN
           Eq(<<u[1][1][1], u[2][1][1]>>, <<K/(1 + p*q[1]), G/(1 + p*q[2])>>)>>,
         <<"shape", Len(u[1]) = Len(SeqOf(x[1])) /\ Len(u[1][1]) = Len(SeqOf(x[3]))>>,
         <<"no pores: the solid", LET v == CallEM(f, Sub(x, 3, <<R("0")>>)) IN Eq(<<v[1][1][1], v[2][1][1]>>, <<At(x[1], 1), At(x[2], 1)>>)>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- Fluid
LawFluid(f, x, u) ==
  CASE f = "Gassmann" -> FirstBroken(<<
         <<"Gassmann's relation", x[5] <= 0 \/ Abs(x[3] - x[1]) < R("1e-3") \/ Abs(x[3] - x[4]) < R("1e-3") \/
           EqT(u[1]*(x[3] - x[1])*(x[3] - x[4])*x[5], (x[3] - u[1])*(x[1]*(x[3] - x[4])*x[5] + x[4]*(x[3] - x[1])), R("1e-6"))>>,
         <<"the shear modulus stays", Eq(u[2], x[2])>>,
         <<"stiffer than dry, softer than the mineral", x[1] > x[3] \/ x[4] <= 0 \/ x[4] > x[3] \/ x[5] < 0 \/ x[5] > 1 - x[1]/x[3] \/ Between(u[1], x[1], x[3])>>,
         <<"drying gives the frame back", x[5] <= 0 \/ x[1] >= x[3]*R("0.99") \/ GassDry(u[1], x[3], x[4], x[5]) <= 0 \/
           EqT(GassDry(u[1], x[3], x[4], x[5]), x[1], R("1e-3"))>> >>)
    [] f \in {"Gassmann_sub", "Gassmann_approx"} -> FirstBroken(<<
         <<"the same fluid changes nothing",
           LET v == IF f = "Gassmann_sub" THEN GassSub(x[1], x[2], x[3], x[4], x[4]) ELSE GassSub(x[4], x[2], x[1], x[3], x[3]) IN
           EqT(v, IF f = "Gassmann_sub" THEN x[3] ELSE x[1], R("1e-5"))>>,
         <<"independent of the path",
           LET p == IF f = "Gassmann_sub" THEN x[1] ELSE x[4]  k0 == x[2]  k1 == IF f = "Gassmann_sub" THEN x[3] ELSE x[1]
               f1 == IF f = "Gassmann_sub" THEN x[4] ELSE x[3]
           IN EqT(GassSub(p, k0, GassSub(p, k0, k1, f1, R("1.7")), R("1.7"), x[5]), u[1], R("1e-4"))>> >>)
    [] f = "vels" -> FirstBroken(<<
         <<"density", Eq(u[3], x[4]*(1 - x[7]) + x[6]*x[7])>>,
         <<"shear modulus", Eq((u[3]*Sq(u[2]))/1000000, x[2])>>,
         <<"the bulk modulus is Gassmann's", Eq((u[3]*(Sq(u[1]) - (4*Sq(u[2]))/3))/1000000, CallFluid("Gassmann", <<x[1], x[2], x[3], x[5], x[7]>>)[1])>> >>)
    [] f = "Gassmann_vels" -> FirstBroken(<<
         <<"the same fluid changes nothing", EqT(CallFluid(f, <<x[1], x[2], x[3], x[4], x[5], x[4], x[5], x[8], x[9]>>), <<x[1], x[2]>>, R("1e-5"))>>,
         <<"shear modulus", Eq(Sq(u[2])*(x[3] + x[9]*(x[6] - x[4])), x[3]*Sq(x[2]))>>,
         <<"there and back", EqT(CallFluid(f, <<u[1], u[2], x[3] + x[9]*(x[6] - x[4]), x[6], x[7], x[4], x[5], x[8], x[9]>>), <<x[1], x[2]>>, R("1e-4"))>> >>)
    [] f = "Brown_Korringa_dry2sat" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"shear compliances stay", \A i \in 4..6 : Eq(u[1][i], x[1][i])>>,
         <<"drying gives the frame back", EqT(BKsat2dry(u[1], x[2], x[3], x[4], x[5]), x[1], R("1e-5")) \/ x[5] < R("0.01")>>,
         <<"an isotropic frame: Gassmann",
           LET K == R("9")  G == R("8")  S == Force(MatInv(Force(IsoC(K, G))))
               v == Force(MatInv(Force(BKdry2sat(S, x[2], x[3], x[4], x[5]))))
           IN EqT(IsoAvg(v)[1], GassK(K, x[2], x[4], x[5]), R("1e-6")) /\ EqT(IsoAvg(v)[2], G, R("1e-6"))>>,
         <<"not softer", \A i \in 1..3 : Leq(u[1][i][i], x[1][i][i]) \/ x[4] > x[2]>> >>)
    [] f = "Brown_Korringa_sat2dry" -> FirstBroken(<<
         <<"symmetric", Symm(u[1])>>, <<"shear compliances stay", \A i \in 4..6 : Eq(u[1][i], x[1][i])>>,
         <<"saturating gives the rock back", EqT(BKdry2sat(u[1], x[2], x[3], x[4], x[5]), x[1], R("1e-5"))>> >>)
    [] f = "Brown_Korringa_sub" -> FirstBroken(<<
         <<"stiffness and compliance are inverse", CloseT(MatMul(u[1], u[2]), Eye(6), 0, R("1e-7"))>>,
         <<"symmetric", Symm(u[1]) /\ Symm(u[2])>>,
         <<"the same fluid changes nothing", EqT(BKsub(x[1], x[2], x[3], x[4], x[4], x[6])[1], x[1], R("1e-5"))>>,
         <<"shear stiffnesses stay", \A i \in 4..6 : Eq(u[1][i][i], x[1][i][i])>> >>)
    [] f = "Brie" -> FirstBroken(<<
         <<"pure fluids", Eq(CallFluid(f, Sub(x, 3, 1))[1], x[1]) /\ Eq(CallFluid(f, Sub(x, 3, 0))[1], x[2])>>,
         <<"exponent one is the Voigt average", Eq(CallFluid(f, Sub(x, 4, 1))[1], x[3]*x[1] + (1 - x[3])*x[2])>>,
         <<"between the fluids", ~(x[3] >= 0 /\ x[3] <= 1) \/ Between(u[1], x[1], x[2])>> >>)
    [] f = "Biot" -> LET g == CallFluid("Gassmann", <<x[1], x[2], x[3], x[4], x[8]>>)[1]  rho == (1 - x[8])*x[5] + x[8]*x[6]
                         lim == Sqrt((g + (4*x[2])/3)/rho)  hf == BiotHF(x[1], x[2], x[3], x[4], x[5], x[6], x[8], x[11]) IN FirstBroken(<<
         <<"low frequency: Gassmann", LET v == BiotSpec(Sub(x, 12, (R("1e-4")*x[7])/(x[9]*(x[6] + R("0.5"))*(1 + Sq(x[10])/x[9])))) IN CloseT(v[1], lim, R("1e-3"), 0) /\ CloseT(v[3], Sqrt(x[2]/rho), R("1e-3"), 0)>>,
         <<"high frequency: Biot_HF", LET v == BiotSpec(Sub(x, 12, (R("1e10")*x[7])/(x[6]*MinR(Sq(x[10]), x[9])))) IN CloseT(<<v[1], v[2], v[3]>>, hf, R("1e-3"), 0)>>,
         <<"the viscous factor is continuous, of modulus zeta/4 at high frequencies",
           CloseT(BiotF(R("0.1")), <<1, 0>>, 0, R("0.001")) /\ CloseT(BiotF(R("999.9")), BiotF(R("1000.1")), R("0.01"), 0)
           /\ CloseT(CAbs(BiotF(R("1e6"))), R("250000"), R("1e-3"), 0)
           \* a second value of the Kelvin functions: the derivative of the series at zeta = 1
           /\ CloseT(BiotF(R("1")), <<R("1.000867002"), R("0.041637771")>>, R("1e-6"), 0)>>,
         <<"the attenuation of the fast waves", u[4] >= -R("1e-9") /\ u[6] >= -R("1e-9")>>,
         <<"between the limits", u[1] > lim*R("0.998") /\ u[3] > Sqrt(x[2]/rho)*R("0.999") /\ u[1] < hf[1]*R("1.01") /\ u[3] < hf[3]*R("1.01")>>,
         <<"the slow wave is slower", u[2] < u[1]*R("1.0001")>> >>)
    [] f = "Biot_HF" -> FirstBroken(<<
         <<"the slow wave is slower", Leq(u[2], u[1])>>,
         <<"not slower than Gassmann's wave",
           LET g == CallFluid("Gassmann", <<x[1], x[2], x[3], x[4], x[7]>>)[1]  rho == (1 - x[7])*x[5] + x[7]*x[6] IN
           x[8] < 1 \/ x[7] > 1 - x[1]/x[3] \/ Leq(Sqrt((g + (4*x[2])/3)/rho), u[1]*R("1.000001"))>>,
         <<"infinite tortuosity: pores move with the frame",
           LET v == CallFluid(f, Sub(x, 8, R("1e12")))  rho == (1 - x[7])*x[5] + x[7]*x[6] IN Eq(v[3], Sqrt(x[2]/rho))>> >>)
    [] f = "Geertsma_Smit_HF" -> FirstBroken(<<
         <<"shear wave of Biot_HF", Eq(u[2], BiotHF(x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8])[3])>>,
         <<"infinite tortuosity: Gassmann",
           LET g == CallFluid("Gassmann", <<x[1], x[2], x[3], x[4], x[7]>>)[1]  rho == (1 - x[7])*x[5] + x[7]*x[6]
               v == CallFluid(f, Sub(x, 8, R("1e12")))
           IN EqT(v[1], Sqrt((g + (4*x[2])/3)/rho), R("1e-5"))>> >>)
    [] f = "Geertsma_Smit_LF" -> FirstBroken(<<
         <<"between the limits", x[1] > x[2] \/ Between(u[1], x[1], x[2])>>,
         <<"limits", Eq(CallFluid(f, Sub(x, 3, R("1e-14")))[1], x[1]) /\ EqT(CallFluid(f, Sub(x, 3, R("1e22")))[1], x[2], R("1e-4"))>> >>)
    [] f = "Mavko_Jizba" -> FirstBroken(<<
         <<"no soft porosity: Gassmann on the dry rock",
           LET v == CallFluid(f, Sub(Sub(x, 1, x[3]), 2, x[4])) IN
           Eq(v[2], ModG(x[6], x[4])) /\ Eq(v[1], GassK(ModK(x[6], x[3], x[4]), x[5], x[8], x[9]))>>,
         <<"the isotropic relation",
           Eq(1/u[2], 1/ModG(x[6], x[4]) - (4*(1/ModK(x[6], x[3], x[4]) - 1/ModK(x[6], x[1], x[2])))/15)>> >>)
    [] f = "Squirt_anisotropic" -> FirstBroken(<<
         <<"no soft porosity: the dry rock", Eq(SquirtSpec(x[1], [i \in 1..5 |-> x[1][i]*(1 - R("1e-10"))], FALSE), x[1]) >>,
         <<"isotropic rocks: the isotropic relation",
           LET iso(K, G) == <<1/(9*K) + 1/(3*G), 1/(9*K) - 1/(6*G), 1/(9*K) - 1/(6*G), 1/(9*K) + 1/(3*G), 1/G>>
               Kd == 1/(2*x[1][1] + 2*x[1][2] + 4*x[1][3] + x[1][4])  Gd == 1/x[1][5]
               Kh == Kd*R("1.4")
               \* compliant cracks: the compliance that opens with pressure is that of isotropic dry cracks
               \* (normal compliances only) when 1/Gd - 1/Gh = (4/15)(1/Kd - 1/Kh)
               Gh == 1/(1/Gd - (4*(1/Kd - 1/Kh))/15)
               s == SquirtSpec(iso(Kd, Gd), iso(Kh, Gh), FALSE)
           IN Eq(s, iso(Kh, Gh))>>,
         <<"isotropic rocks: only normal compliances are stiffened",
           LET iso(K, G) == <<1/(9*K) + 1/(3*G), 1/(9*K) - 1/(6*G), 1/(9*K) - 1/(6*G), 1/(9*K) + 1/(3*G), 1/G>>
               Kd == R("12")  Gd == R("9")  Kh == R("16")  Gh == R("11")
               s == SquirtSpec(iso(Kd, Gd), iso(Kh, Gh), FALSE)
           IN Eq(s, iso(Kh, 1/(1/Gd - (4*(1/Kd - 1/Kh))/15)))>> >>)
    [] f = "White_Dutta_Ode" -> FirstBroken(<<
         <<"attenuation is not negative", x[14] > 1 \/ Leq(R("0"), u[2])>>,
         <<"between Gassmann with Wood's fluid and Hill's patches",
           x[14] > 1 \/ LET G == x[2]  sg == x[14]  m(k) == k + (4*G)/3
               kw == GassK(x[1], x[3], 1/(sg/x[8] + (1 - sg)/x[9]), x[4])
               kh == 1/(sg/m(GassK(x[1], x[3], x[8], x[4])) + (1 - sg)/m(GassK(x[1], x[3], x[9], x[4])))
               rho == (1 - x[4])*x[5] + x[4]*(sg*x[6] + (1 - sg)*x[7])
           IN u[1] > Sqrt(m(kw)/rho)*R("0.9999") /\ u[1] < Sqrt(kh/rho)*R("1.01")>>,
         <<"slow waves have time to relax: Gassmann with Wood's fluid",
           x[14] > 1 \/ LET z == [x EXCEPT ![15] = @*Sq(R("0.03")/MaxR(CAbs(WDalpha(x, 1))*x[13], (CAbs(WDalpha(x, 2))*x[13])/Cbrt(x[14])))]
               G == x[2]  sg == x[14]  m(k) == k + (4*G)/3
               kw == GassK(x[1], x[3], 1/(sg/x[8] + (1 - sg)/x[9]), x[4])
               rho == (1 - x[4])*x[5] + x[4]*(sg*x[6] + (1 - sg)*x[7])
           IN CloseT(WDSpec(z)[1], Sqrt(m(kw)/rho), R("1e-3"), 0)>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- AVO
LawAVO(f, x, u) ==
  CASE f = "zoeppritz" -> LET z == Force(ZoepSolve(x[1], x[2], x[3], x[4], x[5], x[6], Deg(x[7])))
                              p == Sin(Deg(x[7]))/x[1]
                              c(v) == Sqrt(1 - Sq(p*v)) IN FirstBroken(<<
         <<"energy is conserved",
           x[7] < 0 \/ p*x[4] > R("0.97") \/ p*x[5] > R("0.97") \/
           EqT(x[3]*x[1]*c(x[1]), x[3]*x[1]*c(x[1])*Sq(z[1]) + x[3]*x[2]*c(x[2])*Sq(z[2]) + x[6]*x[4]*c(x[4])*Sq(z[3]) + x[6]*x[5]*c(x[5])*Sq(z[4]), R("1e-6"))>>,
         <<"normal incidence", LET v == ZoepSpec(Sub(x, 7, 0)) IN Eq(v, <<(x[6]*x[4] - x[3]*x[1])/(x[6]*x[4] + x[3]*x[1]), 0>>)>>,
         <<"no contrast", Eq(ZoepSpec(<<x[1], x[2], x[3], x[1], x[2], x[3], x[7]>>), <<0, 0>>)>>,
         <<"to first order Aki and Richards",
           LET d == R("0.0001")
               y == <<x[1], x[2], x[3], x[1]*(1 + d), x[2]*(1 - 2*d), x[3]*(1 + d/2)>>
               a == AkiRich(x[7], y[1], y[4], y[2], y[5], y[3], y[6])  e == ZoepSpec(Append(y, x[7]))
           IN CloseT(a[1], e[1], R("0.01"), R("1e-6")) /\ CloseT(a[2], e[2], R("0.01"), R("1e-6"))>> >>)
    [] f = "Aki_Richards" -> FirstBroken(<<
         <<"normal incidence", LET a == AkiRich(0, At(x[2], 1), At(x[3], 1), At(x[4], 1), At(x[5], 1), At(x[6], 1), At(x[7], 1)) IN
             Eq(<<a[1], a[2]>>, <<a[3], 0>>)>>,
         <<"layers along rows, angles along columns", Len(u[1]) = Len(AsSeq(x[2])) /\ Len(u[1][1]) = Len(AsSeq(x[1])) /\ Len(u[4]) = Len(AsSeq(x[2]))>>,
         <<"small angles: intercept and gradient",
           LET a == AkiRich(R("0.5"), At(x[2], 1), At(x[3], 1), At(x[4], 1), At(x[5], 1), At(x[6], 1), At(x[7], 1))
           IN CloseT(a[1], a[3] + a[4]*Sq(Sin(Deg(R("0.5")))), 0, R("1e-6"))>>,
         <<"no contrast", Eq(AkiRich(20, At(x[2], 1), At(x[2], 1), At(x[4], 1), At(x[4], 1), At(x[6], 1), At(x[6], 1)), <<0, 0, 0, 0>>)>>,
         <<"upside down: opposite intercept and gradient",
           LET a == AkiRich(20, At(x[2], 1), At(x[3], 1), At(x[4], 1), At(x[5], 1), At(x[6], 1), At(x[7], 1))
               b == AkiRich(20, At(x[3], 1), At(x[2], 1), At(x[5], 1), At(x[4], 1), At(x[7], 1), At(x[6], 1))
           IN Eq(<<a[3], a[4]>>, <<-b[3], -b[4]>>)>> >>)
    [] f = "AVO_HTI" -> LET q(t, a) == RugerHTI(x[1], x[2], x[3], x[4], t, a) IN FirstBroken(<<
         <<"even, period 180 degrees", Eq(q(30, 17), q(30, -17)) /\ Eq(q(30, 17), q(30, 197))>>,
         <<"normal incidence does not depend on the azimuth", Eq(q(0, 17), q(0, 71))>>,
         <<"no contrast", Eq(RugerHTI(x[1], x[1], x[3], x[3], 25, 40), 0)>>,
         <<"isotropic media: Aki and Richards to first order",
           LET d == R("0.0001")  K == R("20") G == R("9")  r == R("2.3")
               C1 == IsoC(K, G)  C2 == IsoC(K*(1 + 2*d), G*(1 - d))  r2 == r*(1 + d)
               v(k, g, q_) == Sqrt((k + (4*g)/3)/q_)
               a == AkiRich(25, v(K, G, r), v(K*(1 + 2*d), G*(1 - d), r2), Sqrt(G/r), Sqrt((G*(1 - d))/r2), r, r2)
           IN CloseT(RugerHTI(r, r2, C1, C2, 25, 40), a[1], R("0.01"), R("1e-7"))>> >>)
    [] f = "AVO_ortho" -> FirstBroken(<<
         <<"no contrast", Eq(CallAVO(f, <<x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[17]>>), <<0, 0>>)>>,
         <<"an HTI medium in its two planes",
           LET h(a, b, e, d, g, r) == LET c33 == r*a*a  c44 == r*b*b  c66 == c44/(1 + 2*g)  c11 == c33*(1 + 2*e)
                                          q == Sqrt(2*c33*(c33 - c66)*d + Sq(c33 - c66)) - c66
                                      IN HTI(c11, c33, q, c44, c66)
               v == CallAVO(f, <<x[1], x[2], 0, 0, R("0.05"), R("0.02"), R("0.04"), x[8], x[9], x[10], 0, 0, R("-0.03"), R("0.06"), R("0.01"), x[16], x[17]>>)
               A_ == h(x[1], x[2], R("0.05"), R("0.02"), R("0.04"), x[8])  B_ == h(x[9], x[10], R("-0.03"), R("0.06"), R("0.01"), x[16])
           IN x[2] > R("0.6")*x[1] \/ x[10] > R("0.6")*x[9] \/
              Eq(v, <<RugerHTI(x[8], x[16], A_, B_, x[17], 0), RugerHTI(x[8], x[16], A_, B_, x[17], 90)>>)>>,
         <<"isotropic media: the planes agree",
           LET v == CallAVO(f, <<x[1], x[2], 0, 0, 0, 0, 0, x[8], x[9], x[10], 0, 0, 0, 0, 0, x[16], x[17]>>) IN Eq(v[1], v[2])>>,
         <<"normal incidence", LET v == CallAVO(f, Sub(x, 17, 0)) IN Eq(v[1], v[2]) /\ Eq(v[1], (x[16]*x[9] - x[8]*x[1])/(x[16]*x[9] + x[8]*x[1]))>> >>)
    [] f = "AVO_abe" -> FirstBroken(<<
         <<"the intercept is that of Aki and Richards",
           LET a == AkiRich(0, x[1], x[4], x[2], x[5], x[3], x[6]) IN Eq(<<u[1], u[3]>>, <<a[3], a[4]>>)>>,
         <<"to first order Shuey's gradient is that of Aki and Richards, the converted wave's slope too",
           x[2] >= R("0.8")*x[1] \/
           LET d == R("0.00001")
               v == AbeSpec(x[1], x[2], x[3], x[1]*(1 + d), x[2]*(1 - 2*d), x[3]*(1 + 3*d))
               a == AkiRich(R("0.1"), x[1], x[1]*(1 + d), x[2], x[2]*(1 - 2*d), x[3], x[3]*(1 + 3*d))
           IN CloseT(v[2], v[3], R("0.001"), R("1e-8")) /\ CloseT(v[5], a[2]/Sin(Deg(R("0.1"))), R("0.001"), R("1e-8"))>> >>)
    [] f = "EI_ref" -> FirstBroken(<<
         <<"normal incidence: the acoustic impedance",
           LET v == CallAVO(f, Sub(x, 4, <<R("0")>>)) IN Eq(v[1][1][1], Ix(x[1], 1)*Ix(x[3], 1))>>,
         <<"increments are twice the reflectivity",
           \* ln EI2/EI1 = 2 Rpp for a small contrast with Vs/Vp = SP
           LET d == R("0.0001")  vp == R("3000")  sp == x[5]  r == R("2.4")  t == R("20")
               e == CallAVO(f, << <<vp, vp*(1 + d)>>, <<sp*vp, sp*vp*(1 - 2*d)>>, <<r, r*(1 + 3*d)>>, <<t>>, sp, FALSE>>)
               a == AkiRich(t, vp, vp*(1 + d), sp*vp, sp*vp*(1 - 2*d), r, r*(1 + 3*d))
           IN CloseT(Ln(e[1][2][1]/e[1][1][1]), 2*a[1], R("0.01"), R("1e-6"))
              /\ CloseT(Ln(e[2][2][1]/e[2][1][1]), 2*a[2], R("0.01"), R("1e-6"))>>,
         <<"increments of the shear impedances are twice the reflectivities",
           LET d == R("0.0001")  vp == R("3000")  sp == x[5]  r == R("2.4")  t == R("20")
               e == CallAVO(f, << <<vp, vp*(1 + d)>>, <<sp*vp, sp*vp*(1 - 2*d)>>, <<r, r*(1 + 3*d)>>, <<t>>, sp, TRUE>>)
               inc(c) == Ln(e[c][2][1]/e[c][1][1])
               j == sp*Sin(Deg(t))                       \* the sine of the shear wave's angle
               a == AkiRich(t, vp, vp*(1 + d), sp*vp, sp*vp*(1 - 2*d), r, r*(1 + 3*d))
           IN CloseT(inc(3), (2*a[2]*sp*Sqrt(1 - j*j))/Cos(Deg(t)), R("0.01"), R("1e-6"))
              /\ CloseT(inc(4), 3*d*(4*j*j - 1) - 2*d*(8*j*j - 1/(1 - j*j)), R("0.01"), R("1e-6"))
              /\ CloseT(inc(5), -2*d*((j*j)/(1 - j*j) - 1) - 3*d, R("0.01"), R("1e-6"))>>,
         <<"normalised: the average impedance",
           Len(x) < 6 \/ Abs(Sin(Deg(Ix(x[4], 1)))) >= x[5] \/ ~Truth(x[6]) \/ LET n == Len(AsSeq(x[1]))  c(z) == [i \in 1..n |-> MeanOf(z)]
               v == CallAVO(f, <<c(x[1]), c(x[2]), c(x[3]), x[4], x[5], TRUE>>) IN
           Eq(<<v[1][1][1], v[2][1][1], v[3][1][1]>>, <<MeanOf(x[1])*MeanOf(x[3]), MeanOf(x[1])*MeanOf(x[3]), MeanOf(x[2])*MeanOf(x[3])>>)>>,
         <<"samples along rows, angles along columns", Len(u[1]) = Len(AsSeq(x[1])) /\ Len(u[5][1]) = Len(AsSeq(x[4]))>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- BW
LawBW(f, x, u) ==
  CASE f = "dz_dp" -> FirstBroken(<<
         <<"the derivative of the compressibility factor",
           LET h == R("1e-5")*x[1] IN CloseT(u[1], (GasZ(x[1] + h, x[2]) - GasZ(x[1] - h, x[2]))/(2*h), R("1e-4"), R("1e-6"))>> >>)
    [] f = "rho_K_brine" -> FirstBroken(<<
         <<"no salt: water", Eq(CallBW(f, Sub(x, 3, 0)), CallBW("rho_K_water", <<x[1], x[2]>>))>>,
         <<"K = rho v^2", Eq(u[2], (u[1]*Sq(CallBW("v_brine", x)[1]))/1000000)>> >>)
    [] f = "v_water" -> FirstBroken(<<
         <<"measured velocities (20 C: 1482 m/s, 74 C: 1555 m/s, 100 C: 1543 m/s at atmospheric pressure)",
           CloseT(<<WaterV(20, R("0.1")), WaterV(74, R("0.1")), WaterV(100, R("0.1"))>>, <<1482, 1555, 1543>>, R("0.003"), 0)>> >>)
    [] f = "pseudo_p_t" -> FirstBroken(<<
         <<"the critical point of methane", LET v == CallBW(f, <<R("4.6"), R("-82.6"), R("0.554")>>) IN CloseT(<<v[2], v[3]>>, <<1, 1>>, R("0.03"), 0)>>,
         <<"proportional", Eq(CallBW(f, <<2*x[1], x[2], x[3]>>)[2], 2*u[2])>> >>)
    [] f = "v_brine" -> FirstBroken(<<
         <<"salt stiffens", u[1] >= CallBW("v_water", <<x[1], x[2]>>)[1] - R("1e-9")>>, <<"no salt: water", Eq(CallBW(f, Sub(x, 3, 0)), CallBW("v_water", <<x[1], x[2]>>))>> >>)
    [] f = "rho_K_water" -> FirstBroken(<<
         <<"K = rho v^2", Eq(u[2], (u[1]*Sq(CallBW("v_water", x)[1]))/1000000)>>,
         <<"near a gram per cubic centimetre", x[1] > 150 \/ x[2] > 100 \/ (u[1] > R("0.85") /\ u[1] < R("1.1"))>> >>)
    [] f \in {"rho_K_gas", "rho_K_co2"} -> FirstBroken(<<
         <<"positive density", u[1] > 0>>,
         <<"a thin gas is ideal", x[2] < 20 \/ x[2] > 150 \/ x[3] < R("0.5") \/ f = "rho_K_co2" \/
           LET v == CallBW(f, Sub(x, 1, R("0.001"))) IN CloseT(v[1], (R("28.8")*x[3]*R("0.001"))/(R("8.3145")*(x[2] + R("273.15"))), R("0.05"), 0)>> >>)
    [] f = "rho_K_go" -> FirstBroken(<<
         <<"no gas: thermal expansion only",
           LET v == CallBW(f, Sub(x, 5, 0)) IN Eq(v[1], x[3]/(R("0.972") + R("0.00038")*(x[2] + R("17.8"))^R("1.175")))>> >>)
    [] f = "rho_K_oil" -> FirstBroken(<< <<"positive", u[1] > 0>> >>)
    [] f = "co2_brine" -> FirstBroken(<<
         <<"pure brine", LET v == CallBW(f, Sub(x, 4, 0)) IN Eq(v, CallBW("rho_K_brine", <<x[1], x[2], x[3]>>))>>,
         <<"pure gas", (Len(x) >= 5 /\ KindOf(x[5]) = "num" /\ x[5] = 0) \/ LET v == CallBW(f, Sub(x, 4, 1))  bw == Len(x) >= 6 /\ x[6]  IN
             Eq(v, CallBW(IF bw THEN "rho_K_gas" ELSE "rho_K_co2", <<x[2], x[1], R("1.5349")>>))>>,
         <<"Reuss is the softest", ~(x[4] >= 0 /\ x[4] <= 1) \/ Len(x) < 5 \/
             LET r == CallBW(f, <<x[1], x[2], x[3], x[4]>>)  v == CallBW(f, <<x[1], x[2], x[3], x[4], 1>>) IN r[2] <= 0 \/ Leq(r[2], v[2])>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- Permeability, Empirical
LawPerm(f, x, u) ==
  CASE f \in {"Kozeny_Carman", "Revil"} -> FirstBroken(<<
         <<"no pores", Eq(CallPerm(f, Sub(x, 1, 0)), <<0>>)>>, <<"square of the size", Eq(CallPerm(f, Sub(x, 2, 3*x[2]))[1], 9*u[1])>> >>)
    [] f = "Kozeny_Carman_Percolation" -> FirstBroken(<<
         <<"no flow at the percolation porosity", Eq(CallPerm(f, Sub(x, 1, x[2])), <<0>>)>>, <<"square of the size", Eq(CallPerm(f, Sub(x, 3, 3*x[3]))[1], 9*u[1])>>,
         <<"without percolation Kozeny-Carman", Eq(CallPerm(f, <<x[1], 0, x[3], R("1")/180>>)[1], CallPerm("Kozeny_Carman", <<x[1], x[3]>>)[1])>> >>)
    [] f = "Perm_logs" -> FirstBroken(<<
         <<"powers of the porosity", LET v == CallPerm(f, Sub(x, 1, 2*x[1])) IN Eq(v, <<64*u[1], u[2]*2^R("4.5"), 16*u[3], 16*u[4]>>)>> >>)
    [] f = "Panda_Lake" -> FirstBroken(<<
         <<"equal grains: Kozeny-Carman with a tortuosity", LET v == CallPerm(f, Sub(x, 2, 0)) IN Eq(v[1], (R("2.5")*CallPerm("Kozeny_Carman", <<x[5], x[1]>>)[1])/x[4])>>,
         <<"square of the size", Eq(CallPerm(f, Sub(x, 1, 3*x[1]))[1], 9*u[1])>> >>)
    [] f = "Panda_Lake_cem" -> FirstBroken(<< <<"no pores", Eq(CallPerm(f, Sub(x, 1, 0)), <<0>>)>>, <<"square of the size", Eq(CallPerm(f, Sub(x, 2, 3*x[2]))[1], 9*u[1])>> >>)
    [] f = "Fredrich" -> FirstBroken(<<
         <<"square of the size", Eq(CallPerm(f, Sub(x, 2, 3*x[2]))[1], 9*u[1])>>,
         <<"Kozeny-Carman with its own constant", Eq(u[1], (5*x[1]*Sq(x[1])*Sq(x[2]))/(R("450")*x[3]*Sq(1 - x[1])))>> >>)
    [] f = "Bernabe" -> FirstBroken(<<
         <<"no pores", Eq(CallPerm(f, Sub(x, 1, 0)), <<0>>)>>,
         <<"between tubes and cracks only", Between(u[1], CallPerm(f, Sub(x, 2, 0))[1], CallPerm(f, Sub(x, 2, 1))[1]) \/ ~(x[2] >= 0 /\ x[2] <= 1)>> >>)
    [] OTHER -> ""
LawEmp(f, x, u) ==
  CASE f = "krief" -> FirstBroken(<< <<"the mineral at zero porosity", LET v == CallEmp(f, Sub(x, 1, 0)) IN Eq(v, <<x[2] - (2*x[3])/3, x[3], x[2]>>)>>,
                                     <<"the Poisson ratio of the mineral", Eq(u[1]*x[3], u[2]*(x[2] - (2*x[3])/3))>> >>)
    [] f = "Japsen" -> FirstBroken(<< <<"continuous at the segment boundaries", \A z \in {1393, 2000, 3500} : Abs(JapsenV(z) - JapsenV(z - R("0.001"))) < 1>> >>)
    [] f = "ramm_porosity_segment" -> FirstBroken(<< <<"decreasing", Leq(CallEmp(f, <<x[1] + 1>>)[1], u[1])>> >>)
    [] f = "esti_VS" -> FirstBroken(<< <<"between sand and shale", ~(x[2] >= 0 /\ x[2] <= 1) \/ x[1] < 1500 \/ Between(u[1], CallEmp(f, Sub(x, 2, 0))[1], CallEmp(f, Sub(x, 2, 1))[1])>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- GM
LawGM(f, x, u) ==
  CASE f = "hertzmindlin" -> FirstBroken(<<
         <<"cube root of the stress", LET v == CallGM(f, Sub(x, 5, 8*x[5])) IN Eq(v, <<2*u[1], 2*u[2]>>)>>,
         <<"friction stiffens the shear only", LET v == CallGM(f, Sub(x, 6, 1)) w == CallGM(f, Sub(x, 6, 0)) IN Eq(v[1], w[1]) /\ Leq(w[2], v[2])>>,
         <<"rough grains: Walton's pack", Eq(CallGM(f, Sub(x, 6, 1)), WaltonSpec(x[1], x[2], x[3], x[4], x[5], 1))>>,
         <<"smooth grains: the bulk modulus of Walton's pack", Eq(CallGM(f, Sub(x, 6, 0))[1], WaltonSpec(x[1], x[2], x[3], x[4], x[5], 0)[1])>> >>)
    [] f = "Walton" -> FirstBroken(<<
         <<"cube root of the stress", LET v == CallGM(f, Sub(x, 5, 8*x[5])) IN Eq(v, <<2*u[1], 2*u[2]>>)>>,
         <<"rough grains: Hertz-Mindlin", Eq(CallGM(f, Sub(x, 6, 1)), HM(x[1], x[2], x[3], x[4], x[5], 1))>>,
         <<"smooth grains have Poisson ratio 1/4", LET v == CallGM(f, Sub(x, 6, 0)) IN x[5] <= 0 \/ Eq(PoiR(v[1], v[2]), R("0.25"))>> >>)
    [] f = "Digby" -> FirstBroken(<<
         <<"no bonded radius: Hertz-Mindlin bulk modulus, smooth shear",
           LET v == DigbySpec(x[1], x[2], x[3], x[4], x[5], R("0")) IN EqT(v, HM(x[1], x[2], x[3], x[4], x[5], 0), R("1e-4")) \/ EqT(v[1], HM(x[1], x[2], x[3], x[4], x[5], 0)[1], R("1e-4"))>>,
         <<"pressure stiffens", LET v == CallGM(f, Sub(x, 5, x[5] + 5)) IN Leq(u[1], v[1]) /\ Leq(u[2], v[2])>> >>)
    [] f \in {"softsand", "stiffsand"} -> FirstBroken(<<
         <<"the mineral at zero porosity", Eq(CallGM(f, Sub(x, 3, 0)), <<x[1], x[2]>>)>>,
         <<"the pack at critical porosity", Eq(CallGM(f, Sub(x, 3, x[4])), HM(x[1], x[2], x[4], x[5], x[6], x[7]))>>,
         <<"soft below stiff",
           ~(x[3] <= x[4]) \/ HM(x[1], x[2], x[4], x[5], x[6], x[7])[1] > x[1] \/ HM(x[1], x[2], x[4], x[5], x[6], x[7])[2] > x[2] \/
           LET a == CallGM("softsand", x)  b == CallGM("stiffsand", x) IN Leq(a[1], b[1]) /\ Leq(a[2], b[2])>> >>)
    [] f = "contactcement" -> ""
    [] f \in {"constantcement", "MUHS"} ->
         LET c == IF f = "MUHS" THEN x ELSE <<x[2], x[3], x[4], x[5], x[6], x[1], x[7], x[8], x[9]>>
             e == ContactCem(c[1], c[2], c[3], c[4], c[6], c[7], c[8], c[9])
             lo == ConstCem(c[6], c[1], c[2], c[3], c[4], c[5], c[7], c[8], c[9])  hi == MuhsSpec(c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]) IN FirstBroken(<<
         <<"the mineral at zero porosity", Eq(ConstCem(c[6], c[1], c[2], c[3], c[4], R("0"), c[7], c[8], c[9]), <<c[1], c[2]>>)
                                           /\ Eq(MuhsSpec(c[1], c[2], c[3], c[4], R("0"), c[6], c[7], c[8], c[9]), <<c[1], c[2]>>)>>,
         <<"contact cement at phi_b", Eq(ConstCem(c[6], c[1], c[2], c[3], c[4], c[6], c[7], c[8], c[9]), e) /\ Eq(MuhsSpec(c[1], c[2], c[3], c[4], c[6], c[6], c[7], c[8], c[9]), e)>>,
         <<"lower below upper", c[5] > c[6] \/ e[1] <= 0 \/ e[2] <= 0 \/ e[1] > c[1] \/ e[2] > c[2] \/ (Leq(lo[1], hi[1]) /\ Leq(lo[2], hi[2]))>> >>)
    [] f = "pcm" -> FirstBroken(<<
         <<"the mineral at zero porosity", Eq(CallGM(f, Sub(x, 5, 0)), <<x[3], x[4]>>)>>,
         <<"no patches: soft sand", Eq(CallGM(f, Sub(x, 1, 0)), SoftSpec(x[3], x[4], x[5], x[6], x[11], x[2], x[14]))>> >>)
    [] f = "vpcm" -> FirstBroken(<<
         <<"no dilution: stiff patches", Eq(CallGM(f, Sub(x, 1, 0)), PcmSpec(x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], "stiff", x[13], x[14]))>>,
         <<"full dilution: soft patches", Eq(CallGM(f, Sub(x, 1, 1)), PcmSpec(x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], "soft", x[13], x[14]))>>,
         <<"no patches: soft sand", Eq(CallGM(f, Sub(x, 2, 0)), SoftSpec(x[4], x[5], x[6], x[7], x[12], x[3], x[14]))>> >>)
    [] f = "diluting" -> FirstBroken(<<
         <<"from k down to zero, never negative", Eq(CallGM(f, Sub(x, 3, 0))[1], x[1]) /\ u[1] >= 0 /\ Leq(CallGM(f, Sub(x, 3, x[3] + 1))[1], u[1])>> >>)
    [] f = "ThomasStieber" -> FirstBroken(<<
         <<"clean sand", Eq(CallGM(f, Sub(x, 3, 0)), <<x[1], x[1]>>)>>, <<"pure shale", Eq(CallGM(f, Sub(x, 3, 1)), <<MaxR(x[1] - 1 + x[2], x[2]), x[2]>>)>> >>)
    [] f = "silty_shale" -> FirstBroken(<<
         <<"ends", Eq(CallGM(f, Sub(x, 1, 0)), <<x[2], x[3]>>) /\ Eq(CallGM(f, Sub(x, 1, 1)), <<x[4], x[5]>>)>>,
         <<"between", ~(x[1] >= 0 /\ x[1] <= 1) \/ (Between(u[1], x[2], x[4]) /\ Between(u[2], x[3], x[5]))>> >>)
    [] f = "shaly_sand" -> FirstBroken(<<
         <<"ends", Eq(CallGM(f, Sub(x, 2, 0)), <<x[3], x[4]>>) /\ Eq(CallGM(f, Sub(x, 2, x[1])), <<x[5], x[6]>>)>> >>)
    [] f = "johnson" ->
         LET al == Sqrt(x[5]/x[6])  nu == PoiR(x[1], x[2])  Cn == (4*x[2])/(1 - nu)  Ct == (8*x[2])/(2 - nu)
             B == 2/(Pi*Cn)  CC_ == (4/Pi)*(1/Ct - 1/Cn)
             n == 400
             \* Simpson's rule for the integrals over the contact directions
             w(i) == IF i = 0 \/ i = n THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
             I(k) == SumSeq([j \in 1..(n + 1) |-> LET t == ToReal(j - 1)/n IN (w(j - 1)*(t^k)*Sqrt(al*al + t*t))/(3*n)])
             I0 == SumSeq([j \in 1..(n + 1) |-> LET t == ToReal(j - 1)/n IN (w(j - 1)*Sqrt(al*al + t*t))/(3*n)])
             ga == (3*Cn*Ct*x[3]*(1 - x[4])*Sqrt(-x[5]))/(32*al)
             e33 == ga*(4*B*I(2) + 2*CC_*I(4))
             e11 == ga*(2*B*(I0 - I(2)) + (3*CC_*(I0 - 2*I(2) + I(4)))/4)
             e13 == ga*CC_*(I(2) - I(4))
         IN FirstBroken(<<
         <<"symmetric", Symm(u[1])>>,
         <<"the averages over the contact directions", CloseT(<<u[1][1][1], u[1][3][3], u[1][1][3]>>, <<e11, e33, e13>>, R("1e-3"), R("1e-4")*Abs(e33))>>,
         <<"the shear stiffnesses", CloseT(<<u[1][4][4], u[1][6][6]>>,
              <<ga*((B*(I0 + I(2)))/2 + CC_*(I(2) - I(4))), ga*(B*(I0 - I(2)) + (CC_*(I0 - 2*I(2) + I(4)))/4)>>, R("1e-3"), R("1e-4")*Abs(e33))>>,
         <<"the stress of the last part of the path",
           x[5]/x[6] > 500 \/ x[6]/x[5] > 500 \/
           LET h == R("1e-4")
               s(e, e3, p) == JohnsonSpec(x[1], x[2], x[3], x[4], e, e3, p, FALSE)
               a == s(x[5], x[6]*(1 + h), "iso_uni")  b == s(x[5], x[6]*(1 - h), "iso_uni")  k == 2*h*x[6]
               c == s(x[5]*(1 + h), x[6], "uni_iso")  d == s(x[5]*(1 - h), x[6], "uni_iso")  l == 2*h*x[5]
               C_ == u[1]
           IN CloseT(<<(a[2] - b[2])/k, (a[3] - b[3])/k>>, <<C_[3][3], C_[1][3]>>, R("1e-4"), R("1e-5")*C_[3][3])
              /\ CloseT(<<(c[2] - d[2])/l, (c[3] - d[3])/l>>, <<C_[3][3] + 2*C_[1][3], C_[1][1] + C_[1][2] + C_[1][3]>>, R("1e-4"), R("1e-5")*C_[3][3])>>,
         <<"the stress along the straight path",
           LET h == R("1e-4")
               s(z) == JohnsonSpec(x[1], x[2], x[3], x[4], x[5]*z, x[6]*z, "together", FALSE)
               a == s(1 + h)  b == s(1 - h)  C_ == u[1]  e1 == x[5]  e3_ == x[5] + x[6]
           IN CloseT(<<(a[2] - b[2])/(2*h), (a[3] - b[3])/(2*h)>>,
                     <<C_[3][3]*e3_ + 2*C_[1][3]*e1, (C_[1][1] + C_[1][2])*e1 + C_[1][3]*e3_>>, R("1e-4"), R("1e-5")*C_[3][3]*Abs(e3_))>>,
         <<"transversely isotropic about x3", EqT(u[1], Rotate(u[1], RotZ(31)), R("1e-6"))>>,
         <<"the stiffness does not depend on the path",
           Eq(JohnsonSpec(x[1], x[2], x[3], x[4], x[5], x[6], "together", FALSE)[1], JohnsonSpec(x[1], x[2], x[3], x[4], x[5], x[6], "iso_uni", FALSE)[1])>> >>)
    [] OTHER -> ""

\* ------------------------------------------------------------- QI
LawQI(f, x, u) ==
  CASE f = "matrix_modulus" -> FirstBroken(<<
         <<"within the constituents", ~(x[3] <= x[2]) \/ x[1] > 1 - x[2] \/ Between(u[1], MinSeq(<<x[4], x[5], x[6]>>), MaxSeq(<<x[4], x[5], x[6]>>))>>,
         <<"the solid has fractions that add up to one", Eq(SumSeq(SolidFr(x[1], x[2], x[3])), 1)>> >>)
    [] f = "den_matrix" -> FirstBroken(<< <<"equal densities", Eq(CallQI(f, <<x[1], x[2], x[3], x[4], x[4], x[4]>>)[1], x[4])>> >>)
    [] f = "screening" -> FirstBroken(<<
         <<"the porosity axis", u[1][100] = x[13] /\ \A i \in 1..99 : u[1][i] < u[1][i + 1]>>,
         <<"at every porosity one of the cement curves has a value", \A i \in 1..100 : ~(IsNaN(u[3][i]) /\ IsNaN(u[4][i]))>>,
         <<"soft sand and cement curves start at the mineral", CloseT(u[2][1], u[3][1], R("1e-3"), 0)>> >>)
    [] f = "normalize" -> FirstBroken(<< <<"maximum one", Eq(MaxSeq(u[1]), 1) \/ ~(MaxSeq(x[1]) > 0)>> >>)
    [] f = "estimate_cem" -> FirstBroken(<<
         <<"between zero and the highest line", \A i \in 1..Len(u[1]) : IsNaN(u[1][i]) \/ (u[1][i] >= 0 /\ u[1][i] <= x[3][Len(x[3])])>>,
         <<"on a line its cement volume",
           LET L == Force(CemLines(x, x[2][1])) IN IsNaN(L[1]) \/ \A j \in 2..Len(L) : Eq(CemOf(L[j], L, x[3]), x[3][j])>>,
         <<"faster samples have more cement",
           LET L == Force(CemLines(x, x[2][1])) IN IsNaN(L[1]) \/ IsNaN(x[1][1]) \/ Leq(CemOf(x[1][1], L, x[3]), CemOf(x[1][1] + 100, L, x[3]))>> >>)
    [] OTHER -> ""

Broken(m, f, x, u) ==
  CASE m = "utils" -> LawUtils(f, x, u)        [] m = "Anisotropy" -> LawAniso(f, x, u)
    [] m = "AVO" -> LawAVO(f, x, u)            [] m = "EM" -> LawEM(f, x, u)
    [] m = "Fluid" -> LawFluid(f, x, u)        [] m = "BW" -> LawBW(f, x, u)
    [] m = "Permeability" -> LawPerm(f, x, u)  [] m = "Empirical" -> LawEmp(f, x, u)
    [] m = "GM" -> LawGM(f, x, u)              [] m = "QI" -> LawQI(f, x, u)
\* the laws at one element of a call
BrokenAt(m, f, a) == LET s == SigOf(m, f)  x == IF s.w THEN a ELSE Force(Elem(s, a, 1)) IN Broken(m, f, x, Force(Call(m, f, x)))
=============================================================================
