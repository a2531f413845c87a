-------------------------------- MODULE XEM --------------------------------
(* rockphypy.EM: bounds, inclusion and crack models. *)
EXTENDS Sig

\* ------------------------------------------------------------- bounds
Voigt(w, m) == Dot(w, m)
Reuss(w, m) == 1/SumSeq([i \in 1..Len(w) |-> w[i]/m[i]])
VRHOf(w, m) == LET v == Voigt(w, m)  r == Reuss(w, m) IN <<v, r, (v + r)/2>>
\* Hashin-Shtrikman: the two-phase mixture seen from the stiffer / softer phase.  f: fraction of phase 1
HSK(f, K1, K2, G1, G2, up) == Mix(f, K1, K2, (4*(IF up THEN G1 ELSE G2))/3)
HSG(f, K1, K2, G1, G2, up) == Mix(f, G1, G2, IF up THEN ZetaG(K1, G1) ELSE ZetaG(K2, G2))

\* ------------------------------------------------------------- Eshelby / Cheng penny cracks
ChengSpec(K, G, phi, al, Kf, shipped) ==
  LET la == Lame(K, G)  sg == PoiR(K, G)
      RR == (1 - 2*sg)/(8*Pi*(1 - sg))
      Q  == (3*RR)/(1 - 2*sg)
      Sa == Sqrt(1 - al*al)
      Ia == (2*Pi*al*(Acos(al) - al*Sa))/(Sa*Sa*Sa)
      Ic == 4*Pi - 2*Ia
      Iac == (Ic - Ia)/(3*Sa*Sa)
      Iaa == Pi - (3*Iac)/4
      Iab == Iaa/3
      S11 == Q*Iaa + RR*Ia
      S33 == Q*((4*Pi)/3 - 2*Iac*al*al) + Ic*RR
      S12 == Q*Iab - RR*Ia
      S13 == Q*Iac*al*al - RR*Ia
      S31 == Q*Iac - RR*Ic
      S1212 == Q*Iab + RR*Ia
      S1313 == (Q*(1 + al*al)*Iac)/2 + (RR*(Ia + Ic))/2
      C == Kf/(3*(K - Kf))
      D == S33*S11 + S33*S12 - 2*S31*S13 - (S11 + S12 + S33 - 1 - 3*C)
           - C*(S11 + S12 + 2*(S33 - S13 - S31))
      EE == S33*S11 - S31*S13 - (S33 + S11 - 2*C - 1) + C*(S31 + S13 - S11 - S33)
      first == la*(S31 - S33 + 1)
      c11 == (IF shipped THEN first ELSE first/D) + (2*G*EE)/(D*(S12 - S11 + 1))
      c33 == ((la + 2*G)*(1 - S12 - S11) + 2*la*S13 + 4*G*C)/D
      c13 == ((la + 2*G)*(S13 + S31) - 4*G*C + la*(S13 - S12 - S11 - S33 + 2))/(2*D)
  IN << la + 2*G - phi*c11, la + 2*G - phi*c33, la - phi*c13,
        G - (phi*G)/(1 - 2*S1313), G - (phi*G)/(1 - 2*S1212) >>

\* ------------------------------------------------------------- Hudson cracks
HudU(K, G, Ki, Gi, al) ==
  LET la == Lame(K, G)  M2 == la + 2*G
      kap == ((Ki + (4*Gi)/3)*M2)/(Pi*al*G*(la + G))
      MM  == (4*Gi*M2)/(Pi*al*G*(3*la + 4*G))
  IN << (16*M2)/(3*(3*la + 4*G)*(1 + MM)), (4*M2)/(3*(la + G)*(1 + kap)) >>
\* first and second order corrections of one crack set with normal x3 -> c11, c13, c33, c44
Hud1(K, G, e, U) ==
  LET la == Lame(K, G) IN
  << -(Sq(la)*e*U[2])/G, -(la*(la + 2*G)*e*U[2])/G, -(Sq(la + 2*G)*e*U[2])/G, -G*e*U[1] >>
Hud2(K, G, e, U) ==
  LET la == Lame(K, G)  q == 15*Sq(la/G) + (28*la)/G + 28  w == (Sq(e*U[2])*q)/15 IN
  << (w*Sq(la))/(la + 2*G), w*la, w*(la + 2*G), ((((2*G)/15)*(3*la + 8*G))/(la + 2*G))*Sq(e*U[1]) >>
HudsonSpec(K, G, Ki, Gi, al, e, order, axis) ==
  LET la == Lame(K, G)  U == HudU(K, G, Ki, Gi, al)
      o1 == Hud1(K, G, e, U)  o2 == Hud2(K, G, e, U)
      c(i) == o1[i] + (IF order = 2 THEN o2[i] ELSE 0)
      c11 == la + 2*G + c(1)  c13 == la + c(2)  c33 == la + 2*G + c(3)  c44 == G + c(4)
  IN IF axis = 3 THEN VTI(c11, c33, c13, c44, G) ELSE HTI(c33, c11, c13, G, c44)
\* randomly oriented cracks; as shipped the shear correction lacks its factor 1/15
HudRand(K, G, Ki, Gi, al, e, shipped) ==
  LET la == Lame(K, G)  U == HudU(K, G, Ki, Gi, al)
      g1 == -(2*G*e*(3*U[1] + 2*U[2])) / (IF shipped THEN 1 ELSE 15)
      l1 == (-(Sq(3*la + 2*G)*e*U[2])/(3*G) - 2*g1)/3
  IN << la + l1 + (2*(G + g1))/3, G + g1 >>
\* three crack sets with normals x1, x2, x3: the sum of three rotated first order corrections
HudOrtho(K, G, Ki, Gi, al, e) ==
  LET la == Lame(K, G)
      h(i) == Hud1(K, G, e[i], HudU(K, G, Ki, Gi, al[i]))
      h1 == h(1)  h2 == h(2)  h3 == h(3)
      \* a set with normal n: P modulus along n: h[3]; across: h[1]; coupling with n: h[2], without: h[1]
      Pm == la + 2*G
  IN Ortho(Pm + h1[3] + h2[1] + h3[1], Pm + h1[1] + h2[3] + h3[1], Pm + h1[1] + h2[1] + h3[3],
           la + h1[2] + h2[2] + h3[1], la + h1[2] + h2[1] + h3[2], la + h1[1] + h2[2] + h3[2],
           G + h2[4] + h3[4], G + h1[4] + h3[4], G + h1[4] + h2[4])
\* crack normals at angle theta from x3, azimuthally uniform
HudCone(K, G, Ki, Gi, al, e, th, shipped) ==
  LET la == Lame(K, G)  U == HudU(K, G, Ki, Gi, al)  u1 == U[1]  u3 == U[2]
      s2 == Sq(Sin(Deg(th)))  c2 == Sq(Cos(Deg(th)))
      c11 == -(e/(2*G))*(u3*(2*la*la + 4*la*G*s2 + 3*G*G*s2*s2) + u1*G*G*s2*(4 - 3*s2))
      c33 == -(e/G)*(u3*Sq(la + 2*G*c2) + u1*G*G*4*c2*s2)
      c12 == -(e/(2*G))*(u3*(2*la*la + 4*la*G*s2 + G*G*s2*s2) - u1*G*G*s2*s2)
      c13 == -(e/G)*(u3*(la + G*s2)*(la + 2*G*c2) - u1*G*G*2*s2*c2)
      c44 == -((e*G)/2)*(u3*4*s2*c2 + u1*(s2 + 2*c2 - 4*s2*c2))
      c66 == -((e*G)/2)*(u3*s2*s2*(IF shipped THEN 4 ELSE 1) + u1*s2*(2 - s2))
  IN Ortho(la + 2*G + c11, la + 2*G + c11, la + 2*G + c33, la + c12, la + c13, la + c13,
           G + c44, G + c44, G + c66)

\* ------------------------------------------------------------- ellipsoidal inclusions
\* shape factors <<theta, f>> of a spheroid of aspect ratio al # 1
\* as shipped, the prolate branch uses 1/cosh(al) for arccosh(al)
ShapeTF(al, shipped) ==
  LET th == IF al < 1 THEN (al/((1 - al*al)^(3/2)))*(Acos(al) - al*Sqrt(1 - al*al))
            ELSE (al/((al*al - 1)^(3/2)))*(al*Sqrt(al*al - 1)
                      - (IF shipped THEN 1/Cosh(al) ELSE Ln(al + Sqrt(al*al - 1))))
  IN << th, (al*al*(3*th - 2))/(1 - al*al) >>
PQSpec(Km, Gm, Ki, Gi, al, shipped) ==
  IF ~(al < 1) /\ ~(al > 1) THEN LET z == ZetaG(Km, Gm) IN << (Km + (4*Gm)/3)/(Ki + (4*Gm)/3), (Gm + z)/(Gi + z) >>
  ELSE
  LET tf == ShapeTF(al, shipped)  t == tf[1]  f == tf[2]
      AA == Gi/Gm - 1   BB == (Ki/Km - Gi/Gm)/3   RR == Gm/(Km + (4*Gm)/3)
      q == 3 - 4*RR
      F1 == 1 + AA*((3*(f + t))/2 - RR*((3*f)/2 + (5*t)/2 - 4/3))
      F2 == 1 + AA*(1 + (3*(f + t))/2 - RR*((3*f)/2 + (5*t)/2)) + BB*q
              + AA*(AA + 3*BB)*(q/2)*(f + t - RR*(f - t + 2*t*t))
      F3 == 1 + AA*(1 - f - (3*t)/2 + RR*(f + t))
      F4 == 1 + (AA/4)*(f + 3*t - RR*(f - t))
      F5 == AA*(RR*(f + t - 4/3) - f) + BB*t*q
      F6 == 1 + AA*(1 + f - RR*(f + t)) + BB*(1 - t)*q
      F7 == 2 + (AA/4)*(3*f + 9*t - RR*(3*f + 5*t)) + BB*t*q
      F8 == AA*(1 - 2*RR + (f/2)*(RR - 1) + (t/2)*(5*RR - 3)) + BB*(1 - t)*q
      F9 == AA*((RR - 1)*f - RR*t) + BB*t*q
      P  == F1/F2
  IN << P, (2/F3 + 1/F4 + (F4*F5 + F6*F7 - F8*F9)/(F2*F4))/5 >>
\* PQ for each phase of a composite
PQVec(Km, Gm, Ki, Gi, al, shipped) ==
  LET q == Force([i \in 1..Len(al) |-> PQSpec(Km, Gm, Ki[i], Gi[i], al[i], shipped)])
  IN << [i \in 1..Len(al) |-> q[i][1]], [i \in 1..Len(al) |-> q[i][2]] >>
\* Berryman's self-consistent residuals at <<K, G>>
BerrRes(y, K, G, X, al, shipped) ==
  LET q == Force(PQVec(y[1], y[2], K, G, al, shipped)) IN
  << SumSeq([i \in 1..Len(K) |-> X[i]*(K[i] - y[1])*q[1][i]]),
     SumSeq([i \in 1..Len(K) |-> X[i]*(G[i] - y[2])*q[2][i]]) >>
\* the root, by the fixed-point form  K = sum x K_i P_i / sum x P_i
BerrStep(y, K, G, X, al, shipped) ==
  LET q == Force(PQVec(y[1], y[2], K, G, al, shipped))
      S(u, v) == SumSeq([i \in 1..Len(K) |-> X[i]*u[i]*v[i]])
      one == [i \in 1..Len(K) |-> 1]
  IN  Force(<< S(K, q[1])/S(one, q[1]), S(G, q[2])/S(one, q[2]) >>)
BerrSC(K, G, X, al, shipped, n) ==
  LET z == FoldL(LAMBDA y, i : IF y[3] = 1 THEN y ELSE
                    LET w == BerrStep(<<y[1], y[2]>>, K, G, X, al, shipped) IN
                    Force(<<w[1], w[2], IF CloseT(w, <<y[1], y[2]>>, R("1e-14"), 0) THEN 1 ELSE 0>>),
                 << SumSeq(K)/Len(K), SumSeq(G)/Len(G), 0 >>, Seq1(n))
  IN  << z[1], z[2] >>

\* differential effective medium: d(K,G)/dt, integrated with classical Runge-Kutta
DEMrhs(y, t, Ki, Gi, al, shipped) ==
  LET q == PQSpec(y[1], y[2], Ki, Gi, al, shipped) IN
  << ((Ki - y[1])*q[1])/(1 - t), ((Gi - y[2])*q[2])/(1 - t) >>
Axpy(y, h, k) == << y[1] + h*k[1], y[2] + h*k[2] >>
RK4(y, t, h, Ki, Gi, al, shipped) ==
  LET k1 == Force(DEMrhs(y, t, Ki, Gi, al, shipped))
      k2 == Force(DEMrhs(Axpy(y, h/2, k1), t + h/2, Ki, Gi, al, shipped))
      k3 == Force(DEMrhs(Axpy(y, h/2, k2), t + h/2, Ki, Gi, al, shipped))
      k4 == Force(DEMrhs(Axpy(y, h, k3), t + h, Ki, Gi, al, shipped))
  IN  Force(<< y[1] + (h/6)*(k1[1] + 2*k2[1] + 2*k3[1] + k4[1]),
               y[2] + (h/6)*(k1[2] + 2*k2[2] + 2*k3[2] + k4[2]) >>)
\* the trajectory sampled at t = 0, 0.01, 0.02, ... (n samples), each interval in m substeps
DEMPath(Km, Gm, Ki, Gi, al, n, m, shipped) ==
  LET h == R("0.01")/m
      Adv(y, i) == FoldL(LAMBDA z, j : RK4(z, R("0.01")*(i-1) + h*(j-1), h, Ki, Gi, al, shipped), y, Seq1(m))
      Go(s, i) == Append(s, Adv(s[Len(s)], i))
  IN  FoldL(Go, << <<ToReal(Km), ToReal(Gm)>> >>, Seq1(n - 1))

\* ------------------------------------------------------------- dilute and self-consistent estimates
SwissSpec(Ks, Gs, phi) ==
  << Ks/(1 + (1 + (3*Ks)/(4*Gs))*phi), Gs/(1 + ((15*Ks + 20*Gs)*phi)/(9*Ks + 8*Gs)) >>
\* one sweep of the self-consistent pore equations (Gauss-Seidel: G uses the new K)
SCStep(y, phi, Ks, Gs) ==
  LET K == 1/(1/Ks + phi*(1/y[1] + 3/(4*y[2])))
      G == 1/(1/Gs + ((phi/y[2])*(15*K + 20*y[2]))/(9*K + 8*y[2]))
  IN  Force(<<K, G>>)
SCSpec(phi, Ks, Gs, n) == FoldL(LAMBDA y, i : SCStep(y, phi, Ks, Gs), <<Ks, Gs>>, Seq1(n))
CrackDil(Ks, Gs, cd) ==
  LET nu == PoiR(Ks, Gs) IN
  << Ks/(1 + ((16*(1 - nu*nu))/(9*(1 - 2*nu)))*cd), Gs/(1 + ((32*(1 - nu)*(5 - nu))/(45*(2 - nu)))*cd) >>
OCBSpec(K0, G0, crd) ==
  LET nu == PoiR(K0, G0)*(1 - (16*crd)/9) IN
  << K0*(1 - (16*(1 - nu*nu)*crd)/(9*(1 - 2*nu))), G0*(1 - (32*(1 - nu)*(5 - nu)*crd)/(45*(2 - nu))) >>
\* fluid filled cracks: residuals of the two self-consistency equations at (nu, D).
\* as shipped the second one contains the Poisson ratio of the solid in (1 - nu^2)
OCRes(nu, D, crd, nu0, w, shipped) ==
  LET h == (9*(1 - 2*nu))/(16*(1 - Sq(IF shipped THEN nu0 ELSE nu))) IN
  << (45*(nu0 - nu)*(2 - nu))/(16*(1 - nu*nu)) - crd*(D*(1 + 3*nu0)*(2 - nu) - 2*(1 - 2*nu0)),
     crd*D*D - (crd + h + (3*w)/(4*Pi))*D + h >>
OCFK(K0, nu, D, crd) == K0*(1 - (16*(1 - nu*nu)*crd*D)/(9*(1 - 2*nu)))
OCFG(G0, nu, D, crd) == G0*(1 - (32*(1 - nu)*(D + 3/(2 - nu))*crd)/45)
\* D solves its quadratic for a given nu (the root in (0,1])
OCD(nu, crd, nu0, w, shipped) ==
  LET h == (9*(1 - 2*nu))/(16*(1 - Sq(IF shipped THEN nu0 ELSE nu)))
      b == crd + h + (3*w)/(4*Pi)
  IN  (2*h)/(b + Sqrt(b*b - 4*crd*h))
\* nu then solves the first equation: nu0 - nu = crd * (...)
OCSolve(K0, G0, Kfl, crd, al, shipped) ==
  LET nu0 == PoiR(K0, G0)  w == (Kfl/al)/K0
      F(nu) == LET D == OCD(nu, crd, nu0, w, shipped) IN
               (crd*16*(1 - nu*nu)*(D*(1 + 3*nu0)*(2 - nu) - 2*(1 - 2*nu0)))/(45*(2 - nu)) - (nu0 - nu)
      nu == Bisect(F, R("-0.5"), R("0.4999"), 60)
      D  == OCD(nu, crd, nu0, w, shipped)
  IN  << OCFK(K0, nu, D, crd), OCFG(G0, nu, D, crd) >>

S1of(K, G) == LET nu == PoiR(K, G) IN (1 + nu)/(3*(1 - nu))
S2of(K, G) == LET nu == PoiR(K, G) IN (2*(4 - 5*nu))/(15*(1 - nu))
SCDil(Km, Gm, Ki, Gi, f, mode) ==
  LET x == (f*(Km - Ki))/(Km - S1of(Km, Gm)*(Km - Ki))  y == (f*(Gm - Gi))/(Gm - S2of(Km, Gm)*(Gm - Gi))
  IN  IF mode = "stress" THEN << 1/(1 + x), 1/(1 + y) >> ELSE << 1 - x, 1 - y >>
FlexStep(y, f, Km, Ki, Gm, Gi) ==
  Force(<< Km*(1 - (f*y[1]*(Km - Ki))/(Km*(y[1] - S1of(y[1], y[2])*(y[1] - Ki)))),
           Gm*(1 - (f*y[2]*(Gm - Gi))/(Gm*(y[2] - S2of(y[1], y[2])*(y[2] - Gi)))) >>)
FlexSpec(f, n, Km, Ki, Gm, Gi) == FoldL(LAMBDA y, i : FlexStep(y, f, Km, Ki, Gm, Gi), <<Km, Gm>>, Seq1(n))
\* every sweep stays near the phases
FlexTame(f, n, Km, Ki, Gm, Gi) ==
  LET kmax == R("1.01")*MaxSeq(<<Km, Ki>>)  gmax == R("1.01")*MaxSeq(<<Gm, Gi>>)
      kmin == R("0.003")*Km  gmin == R("0.003")*Gm
      Ok(y) == y[1] >= kmin /\ y[1] <= kmax /\ y[2] >= gmin /\ y[2] <= gmax
      z == FoldL(LAMBDA y, i : IF y[3] = 0 THEN y ELSE
                    LET w == FlexStep(y, f, Km, Ki, Gm, Gi) IN Force(<<w[1], w[2], IF Ok(w) THEN 1 ELSE 0>>),
                 <<Km, Gm, 1>>, Seq1(n))
  IN z[3] = 1
\* Mori-Tanaka: strain-concentration weighted mean in the given matrix
MTSpec(f, Km, Gm, K1, G1, K2, G2) ==
  LET a == S1of(Km, Gm)  b == S2of(Km, Gm)
      A1 == 1/(1 + a*(K1/Km - 1))  A2 == 1/(1 + a*(K2/Km - 1))
      B1 == 1/(1 + b*(G1/Gm - 1))  B2 == 1/(1 + b*(G2/Gm - 1))
  IN << (f*A1*K1 + (1-f)*A2*K2)/(f*A1 + (1-f)*A2), (f*B1*G1 + (1-f)*B2*G2)/(f*B1 + (1-f)*B2) >>

\* ------------------------------------------------------------- calls
Ar(a, i, d) == IF Len(a) < i THEN d ELSE a[i]
SeqOf(x) == IF KindOf(x) = "seq" THEN x ELSE <<x>>
At(x, i) == IF KindOf(x) = "seq" THEN x[i] ELSE x
ChengOut(a, sh) ==
  LET c == ChengSpec(a[1], a[2], a[3], a[4], a[5], sh) IN
  IF Ar(a, 6, FALSE) THEN <<VTI(c[1], c[2], c[3], c[4], c[5])>> ELSE <<c>>
DEMOut(a, sh) ==
  LET n == Trunc(a[6]*100) + 2     \* t = 0, 0.01, ..., the first at or above phi
      p == DEMPath(a[1], a[2], a[3], a[4], a[5], n, 4, sh)
  IN << [i \in 1..n |-> p[i][1]], [i \in 1..n |-> p[i][2]], [i \in 1..n |-> R("0.01")*(i-1)] >>
XEMAlt(f, a, sh) ==
  CASE f = "Eshelby_Cheng" -> ChengOut(a, sh)
    [] f = "hudson_rand" -> HudRand(a[1], a[2], a[3], a[4], a[5], a[6], sh)
    [] f = "hudson_cone" -> <<HudCone(a[1], a[2], a[3], a[4], a[5], a[6], a[7], sh)>>
    [] f = "PQ" -> PQSpec(a[1], a[2], a[3], a[4], a[5], sh)
    [] f = "PQ_vectorize" -> PQVec(a[1], a[2], a[3], a[4], a[5], sh)
    [] f = "Berryman_sc" -> BerrSC(a[1], a[2], a[3], a[4], sh, 400)
    [] f = "Berryman_func" -> BerrRes(a[1], a[2], a[3], a[4], a[5], sh)
    [] f = "DEM" -> DEMrhs(a[1], a[2], a[3][2], a[3][1], a[3][3], sh)
    [] f = "Berryman_DEM" -> DEMOut(a, sh)
    [] f = "OConnell_Budiansky_fl" -> OCSolve(a[1], a[2], a[3], a[4], a[5], sh)
    [] f = "OC_R_funcs" -> OCRes(a[1][1], a[1][2], a[2], a[3], a[4], sh)
CallEM(f, a) ==
  CASE f = "VRH" -> IF KindOf(a[1][1]) = "num" THEN VRHOf(a[1], a[2])
                  ELSE LET q == Force([i \in 1..Len(a[1]) |-> VRHOf(a[1][i], a[2])]) IN [c \in 1..3 |-> [i \in 1..Len(q) |-> q[i][c]]]
    [] f = "cripor" -> << a[1]*(1 - a[3]/a[4]), a[2]*(1 - a[3]/a[4]) >>
    [] f = "cripor_reuss" -> IF Ar(a, 4, FALSE) THEN << a[1]*(1 - a[3]) + a[2]*a[3] >>
                             ELSE << 1/((1 - a[3])/a[1] + a[3]/a[2]) >>
    [] f = "HS" -> LET up == Ar(a, 6, "upper") = "upper" IN
                   << HSK(a[1], a[2], a[3], a[4], a[5], up), HSG(a[1], a[2], a[3], a[4], a[5], up) >>
    [] f = "hudson" -> << HudsonSpec(a[1], a[2], a[3], a[4], a[5], a[6], Ar(a, 7, 1), Ar(a, 8, 3)) >>
    [] f = "hudson_ortho" -> << HudOrtho(a[1], a[2], a[3], a[4], a[5], a[6]) >>
    [] f = "Swiss_cheese" ->
         LET phi == SeqOf(a[3])  N == Len(SeqOf(a[1])) IN
         [c \in 1..2 |-> [i \in 1..N |-> [j \in 1..Len(phi) |-> SwissSpec(At(a[1], i), At(a[2], i), phi[j])[c]]]]
    [] f = "SC" -> SCSpec(a[1], a[2], a[3], a[4])
    [] f = "Dilute_crack" -> CrackDil(a[1], a[2], a[3])
    [] f = "OConnell_Budiansky" -> OCBSpec(a[1], a[2], a[3])
    [] f = "SC_dilute" -> SCDil(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "SC_flex" -> FlexSpec(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "MT_average" -> MTSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    [] OTHER -> XEMAlt(f, a, FALSE)
AltEM(f, a) ==
  CASE f = "Eshelby_Cheng" -> <<"F5", XEMAlt(f, a, TRUE)>>
    [] f = "hudson_rand" -> <<"F3", XEMAlt(f, a, TRUE)>>
    [] f = "hudson_cone" -> <<"F4", XEMAlt(f, a, TRUE)>>
    [] f \in {"PQ", "PQ_vectorize", "Berryman_sc", "Berryman_func", "DEM", "Berryman_DEM"} -> <<"F2", XEMAlt(f, a, TRUE)>>
    [] f \in {"OConnell_Budiansky_fl", "OC_R_funcs"} -> <<"F6", XEMAlt(f, a, TRUE)>>
    [] OTHER -> <<>>

OpsEM == <<"VRH", "cripor", "cripor_reuss", "HS", "Eshelby_Cheng", "hudson", "hudson_rand", "hudson_ortho",
           "hudson_cone", "Berryman_sc", "PQ_vectorize", "Swiss_cheese", "SC", "Dilute_crack",
           "OConnell_Budiansky", "OConnell_Budiansky_fl", "PQ", "Berryman_DEM", "SC_dilute", "SC_flex", "MT_average"
           >>
Frac == EX("0", "1", <<0, 1>>)
SigEM(f) ==
  CASE f = "VRH" -> [SigR(<<Fg, Par("v", R("0.0002"), R("200"), TRUE, <<0>>, <<>>)>>) EXCEPT !.w = TRUE, !.vlo = 1, !.vhi = 8, !.vb = 64]
    [] f = "cripor" -> SigR(<<E("5", "100"), E("3", "80"), EX("0", "0.6", <<0>>), E("0.3", "0.7")>>)
    [] f = "cripor_reuss" -> [SigR(<<Sc("1", "100"), SL("0.005", "90"), Sc("0.05", "0.6"), Ch(<<FALSE, TRUE>>)>>) EXCEPT !.req = 3]
    [] f = "HS" -> [SigR(<<Frac, EX("20", "100", <<37>>), EX("1", "38", <<37>>), EX("15", "80", <<>>), E("0.5", "15"), Ch(<<"upper", "lower">>)>>) EXCEPT !.req = 5]
    [] f = "Eshelby_Cheng" -> [SigR(<<Sc("10", "80"), Sc("5", "60"), SX("0", "0.05", <<0>>), SL("0.002", "0.9"), SX("0", "4", <<0>>), Ch(<<FALSE, TRUE>>)>>) EXCEPT !.req = 5]
    [] f = "hudson" -> [SigR(<<Sc("10", "80"), Sc("5", "60"), SX("0", "20", <<0, 2>>), SX("0", "12", <<0>>), SL("0.0002", "0.2"), SX("0", "0.1", <<0>>), Ch(<<1, 2>>), Ch(<<3, 1>>)>>) EXCEPT !.req = 6]
    [] f = "hudson_rand" -> SigR(<<E("10", "80"), E("5", "60"), EX("0", "4", <<0>>), EX("0", "2", <<0>>), EL("0.0005", "0.1"), EX("0", "0.1", <<0>>)>>)
    [] f = "hudson_ortho" -> [SigR(<<Sc("10", "80"), Sc("5", "60"), SX("0", "4", <<0>>), SX("0", "2", <<0>>), VL("0.0005", "0.1"), Vv("0", "0.1")>>) EXCEPT !.vlo = 3, !.vhi = 3, !.w = TRUE]
    [] f = "hudson_cone" -> SigR(<<Sc("10", "80"), Sc("5", "60"), SX("0", "4", <<0>>), SX("0", "2", <<0>>), SL("0.0005", "0.1"), SX("0", "0.1", <<0>>), SX("0", "90", <<0, 90, 45>>)>>)
    [] f = "Berryman_sc" -> [SigR(<<Vv("2", "120"), VX("1", "90", <<0>>), Fr, Par("v", R("0.05"), R("0.97"), TRUE, <<1>>, <<>>)>>) EXCEPT !.w = TRUE, !.far = FALSE, !.vlo = 2, !.vhi = 4, !.t = R("1e-5")]
    [] f = "PQ_vectorize" -> [SigR(<<Sc("10", "80"), Sc("5", "60"), VX("0", "120", <<0>>), VX("0", "90", <<0>>), Par("v", R("0.0003"), R("0.99"), TRUE, <<1, R("1.5"), 4>>, <<>>)>>) EXCEPT !.w = TRUE, !.vlo = 1, !.vhi = 6]
    [] f = "Swiss_cheese" -> [SigR(<<E("10", "80"), E("5", "60"), Vv("0", "0.6")>>) EXCEPT !.w = TRUE, !.nlo = 1, !.mix = FALSE, !.n = 20, !.vlo = 1, !.vhi = 7, !.vb = 64]
    [] f = "SC" -> [SigR(<<EX("0", "0.5", <<0>>), E("5", "90"), E("3", "70"), In(0, 80)>>) EXCEPT !.n = 20]
    [] f = "Dilute_crack" -> SigR(<<E("3", "90"), E("3", "70"), EX("0", "2", <<0, 1>>)>>)
    [] f = "OConnell_Budiansky" -> SigR(<<E("5", "90"), E("3", "70"), EX("0", "0.58", <<0>>)>>)
    [] f = "OConnell_Budiansky_fl" -> [SigR(<<Sc("20", "80"), Sc("12", "50"), Sc("0.5", "3"), Sc("0.01", "0.3"), SL("0.001", "0.05")>>) EXCEPT !.t = R("1e-5")]
    [] f = "PQ" -> [SigR(<<Sc("10", "80"), Sc("5", "60"), SX("0", "120", <<0>>), SX("0", "90", <<0>>), Par("s", R("0.0003"), R("0.99"), TRUE, <<1, 2, R("1.5"), 5, 15, R("1.03"), R("0.02"), R("0.9")>>, <<>>)>>) EXCEPT !.c = FALSE, !.far = FALSE]
    [] f = "Berryman_DEM" -> [SigR(<<Sc("20", "80"), Sc("12", "60"), SX("0", "25", <<0>>), SX("0", "15", <<0>>), SX("0.1", "0.95", <<1>>), SX("0.0005", "0.6", <<R("0.0025"), R("0.006"), R("0.0175")>>)>>) EXCEPT !.c = FALSE, !.far = FALSE, !.t = R("2e-4")]
    [] f = "SC_dilute" -> SigR(<<E("20", "80"), E("15", "60"), EX("0", "120", <<0>>), EX("0", "90", <<0>>), EX("0", "0.5", <<0>>), Ch(<<"stress", "strain">>)>>)
    [] f = "SC_flex" -> [SigR(<<EX("0", "0.99", <<0>>), In(1, 60), E("0.3", "90"), EX("0", "150", <<0, 2>>), E("0.3", "70"), EX("0", "150", <<0, 2>>)>>) EXCEPT !.n = 20]
    [] f = "MT_average" -> SigR(<<Frac, E("10", "80"), E("5", "60"), E("0.1", "100"), E("0.1", "80"), E("0.1", "100"), E("0.1", "80")>>)
PreEM(f, a) ==
  CASE f = "cripor" -> a[3] <= a[4]
    [] f = "Berryman_DEM" -> \* keep phi away from a multiple of 0.01 (length of numpy.arange there is rounding)
         LET x == a[6]*100 IN Abs(x - Trunc(x + Half)) > R("0.02")
    [] f = "Berryman_sc" -> /\ \A i \in 1..Len(a[4]) : a[4][i] <= 1   \* prolate: finding F2, whose equations have several roots
                            \* above percolation, where the fixed point has been reached
                            /\ \A u \in {CallEM(f, a)} : u[2] > R("0.5") /\ CloseT(BerrStep(u, a[1], a[2], a[3], a[4], FALSE), u, R("1e-9"), 0)
    [] f = "VRH" -> \A u \in {CallEM(f, a)} : AllFin(u)
    [] f = "SC_flex" -> \* (soft inclusions above percolation: the sweep runs away)
                        FlexTame(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "OConnell_Budiansky" -> \A x \in {OCBSpec(a[1], a[2], a[3])} : x[1] > 0 /\ x[2] > 0
    [] f = "OConnell_Budiansky_fl" -> PoiR(a[1], a[2]) > R("0") /\ PoiR(a[1], a[2]) < R("0.45")
    [] OTHER -> TRUE
=============================================================================
