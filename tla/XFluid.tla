------------------------------- MODULE XFluid -------------------------------
(* rockphypy.Fluid: fluid substitution, dispersion models, squirt. *)
EXTENDS XUtils

\* ------------------------------------------------------------- Gassmann
\* K_sat from the dry frame: 1/(K0 - Ksat) form,
\*   Ksat/(K0-Ksat) = Kdry/(K0-Kdry) + Kf/(phi (K0-Kf)),
\* written without the division by phi so that phi = 0 is covered
GassK(Kd, K0, Kf, phi) ==
  LET b == 1 - Kd/K0 IN Kd + (b*b)/(phi/Kf + (1 - phi)/K0 - Kd/(K0*K0))
GassDry(Ks, K0, Kf, phi) ==
  (Ks*((phi*K0)/Kf + 1 - phi) - K0)/((phi*K0)/Kf + Ks/K0 - 1 - phi)
GassSub(phi, K0, Ks1, Kf1, Kf2) == GassK(GassDry(Ks1, K0, Kf1, phi), K0, Kf2, phi)
GassVels(vp, vs, r1, rf1, kf1, rf2, kf2, K0, phi) ==
  LET r2 == r1 + phi*(rf2 - rf1)  mu == r1*vs*vs  k1 == r1*vp*vp - (4*mu)/3
      k2 == GassSub(phi, K0, k1, kf1, kf2)
  IN << Sqrt((k2 + (4*mu)/3)/r2), Sqrt(mu/r2) >>

\* ------------------------------------------------------------- Brown-Korringa
ColSum(M, j) == M[1][j] + M[2][j] + M[3][j]
Tot(M) == ColSum(M, 1) + ColSum(M, 2) + ColSum(M, 3)
BKdry2sat(Sd, K0, G0, Kf, phi) ==
  LET d == [j \in 1..6 |-> ColSum(Sd, j) - (IF j <= 3 THEN 1/(3*K0) ELSE 0)]
      q == (Tot(Sd) - 1/K0) + phi*(1/Kf - 1/K0)
  IN [i \in 1..6 |-> [j \in 1..6 |-> Sd[i][j] - (d[i]*d[j])/q]]
BKsat2dry(Ss, K0, G0, Kf, phi) ==
  LET d == [j \in 1..6 |-> ColSum(Ss, j) - (IF j <= 3 THEN 1/(3*K0) ELSE 0)]
      q == phi*(1/Kf - 1/K0) - (Tot(Ss) - 1/K0)
  IN [i \in 1..6 |-> [j \in 1..6 |-> Ss[i][j] + (d[i]*d[j])/q]]
BKsub(C, K0, G0, Kf1, Kf2, phi) ==
  LET S1 == Force(MatInv(C))
      Sd == Force(BKsat2dry(S1, K0, G0, Kf1, phi))
      S2 == Force(BKdry2sat(Sd, K0, G0, Kf2, phi))
  IN << Force(MatInv(S2)), S2 >>

\* ------------------------------------------------------------- Biot
\* J1(z)/J0(z) of a complex argument, by the continued fraction of Bessel's recurrence
BesselR(z) ==
  LET n == Trunc(CAbs(z)*R("1.3")) + 60
      Step(r, k) == CInv(CSub(CDiv(CC(2*(n + 1 - k)), z), r))
  IN  FoldL(LAMBDA r, k : Force(Step(r, k)), <<R("0"), R("0")>>, Seq1(n))
\* the last step has k = n: r = 1/(2/z - r2) = J1/J0
BiotF(zeta) ==
  IF zeta < R("0.1") THEN CC(R("1"))
  ELSE LET h == Sqrt(R("0.5"))
           T == IF zeta > 1000 THEN <<h, h>>
                ELSE CMul(<<-h, h>>, Force(BesselR(<<zeta*h, -zeta*h>>)))
           den == CAdd(CC(1), CSc(2/zeta, <<-T[2], T[1]>>))
       IN  CSc(zeta/4, CDiv(T, den))
BiotSpec(a) ==
  LET Kd == a[1]  Gd == a[2]  K0 == a[3]  Kf == a[4]  r0 == a[5]  rf == a[6]  eta == a[7]  phi == a[8]
      kap == a[9]  ap == a[10]  al == a[11]  w == 2*Pi*a[12]
      rho == (1 - phi)*r0 + phi*rf
      D == K0*(1 + phi*(K0/Kf - 1))
      M == (K0*K0)/(D - Kd)   C == ((K0 - Kd)*K0)/(D - Kd)
      H == Kd + (4*Gd)/3 + Sq(K0 - Kd)/(D - Kd)
      F == Force(BiotF(Sqrt((w*ap*ap*rf)/eta)))
      q == Force(CAdd(CC((al*rf)/phi), CSc(eta/(w*kap), <<F[2], -F[1]>>)))
      \* (C^2 - MH) s^2 + (Hq + M rho - 2 C rhof) s + (rhof^2 - rho q) = 0,  s = squared P slowness
      A2 == C*C - M*H
      B1 == Force(CAdd(CSc(H, q), CC(M*rho - 2*C*rf)))
      C0 == Force(CSub(CC(rf*rf), CSc(rho, q)))
      disc == Force(CSqrt(CSub(CMul(B1, B1), CSc(4*A2, C0))))
      ss == Force(CSc(-1/(2*A2), CAdd(disc, B1)))
      sf == Force(CSc(1/A2, CDiv(C0, ss)))     \* the product of the roots: no cancellation at low frequencies
      st == Force(CDiv(CSub(CSc(rho, q), CC(rf*rf)), CSc(Gd, q)))
      Vel(s) == 1/CSqrt(s)[1]
      Qi(s) == LET v == CInv(s) IN v[2]/v[1]
  IN << Vel(sf), Vel(ss), Vel(st), Qi(sf), Qi(ss), Qi(st) >>
BiotHF(Kd, Gd, K0, Kf, r0, rf, phi, al) ==
  LET rho == (1-phi)*r0 + phi*rf
      D == K0*(1 + phi*(K0/Kf - 1))
      M == (K0*K0)/(D - Kd)   C == ((K0 - Kd)*K0)/(D - Kd)
      H == Kd + (4*Gd)/3 + Sq(K0 - Kd)/(D - Kd)
      \* the same quadratic with the real high-frequency q = alpha rhof / phi
      q == (al*rf)/phi
      a2 == C*C - M*H   b1 == H*q + M*rho - 2*C*rf   c0 == rf*rf - rho*q
      dd == Sqrt(b1*b1 - 4*a2*c0)
  IN << 1/Sqrt((dd - b1)/(2*a2)), 1/Sqrt(-(dd + b1)/(2*a2)), Sqrt(Gd/(rho - (phi*rf)/al)) >>
GeertsHF(Kd, Gd, K0, Kf, r0, rf, phi, al) ==
  LET r == (1-phi)*r0 + phi*rf   rb == (1-phi)*r0 + phi*rf*(1 - 1/al)   b == 1 - Kd/K0
  IN << Sqrt((Kd + (4*Gd)/3 + ((phi*r)/(rf*al) + b*(b - (2*phi)/al))/((b - phi)/K0 + phi/Kf))/rb), Sqrt(Gd/rb) >>
GeertsLF(v0, vi, fr, phi, rf, kap, eta) ==
  LET x == Sq(((phi*eta)/(2*Pi*rf*kap))/fr) IN Sqrt((P4(vi) + P4(v0)*x)/(vi*vi + v0*v0*x))

\* ------------------------------------------------------------- patchy saturation (White, Dutta-Ode)
WDQ(Kd, K0, Kf, phi) == 1/(phi/Kf + (1-phi)/K0 - Kd/(K0*K0))
WDalpha(a, i) ==   \* i = 1 or 2
  LET Kd == a[1]  K0 == a[3]  phi == a[4]  Kf == a[7+i]  eta == a[9+i]  kap == a[12]  w == 2*Pi*a[15]
      K == GassK(Kd, K0, Kf, phi)
      KE == (1 - (Kf*(1 - K/K0)*(1 - Kd/K0))/(phi*K*(1 - Kf/K0)))*WDQ(Kd, K0, Kf, phi)
  IN CSqrt(<<R("0"), (w*eta)/(kap*KE)>>)
WDSpec(a) ==
  LET Kd == a[1]  Gd == a[2]  K0 == a[3]  phi == a[4]  r0 == a[5]  rf1 == a[6]  rf2 == a[7]
      Kf1 == a[8]  Kf2 == a[9]  e1 == a[10]  e2 == a[11]  kap == a[12]  ra == a[13]  sg == a[14]
      w == 2*Pi*a[15]   rb == ra/Cbrt(sg)   G == Gd
      K1 == GassK(Kd, K0, Kf1, phi)  K2 == GassK(Kd, K0, Kf2, phi)
      N == K2*(3*K1 + 4*G) + 4*G*(K1 - K2)*sg
      R1 == (((K1 - Kd)/(1 - Kd/K0))*(3*K2 + 4*G))/N
      R2 == (((K2 - Kd)/(1 - Kd/K0))*(3*K1 + 4*G))/N
      Q1 == ((1 - Kd/K0)*WDQ(Kd, K0, Kf1, phi))/K1
      Q2 == ((1 - Kd/K0)*WDQ(Kd, K0, Kf2, phi))/K2
      al1 == Force(WDalpha(a, 1))  al2 == Force(WDalpha(a, 2))
      one == CC(R("1"))
      x1 == CSc(ra, al1)  x2 == CSc(ra, al2)  y2 == CSc(rb, al2)
      E1 == Force(CExp(CSc(-2, x1)))  E2 == Force(CExp(CSc(2*(rb - ra), al2)))
      Z1 == Force(CSc((e1*ra)/kap, CDiv(CSub(one, E1), CAdd(CSub(x1, one), CMul(CAdd(x1, one), E1)))))
      Z2 == Force(CSc(-(e2*ra)/kap,
              CDiv(CAdd(CAdd(y2, one), CMul(CSub(y2, one), E2)),
                   CSub(CMul(CAdd(y2, one), CSub(x2, one)), CMul(CMul(CSub(y2, one), CAdd(x2, one)), E2)))))
      W == Force(CDiv(CC((3*ra*ra*(R1 - R2)*(Q2 - Q1))/(rb*rb*rb*w)), CMul(<<R("0"), R("1")>>, CAdd(Z1, Z2))))
      Ki == N/(3*K1 + 4*G - 3*(K1 - K2)*sg)
      Ks == Force(CDiv(CC(Ki), CSub(one, CSc(Ki, W))))
      M == CAdd(Ks, CC((4*G)/3))
      rho == (1-phi)*r0 + phi*(sg*rf1 + (1-sg)*rf2)
      th == Atan(M[2]/M[1])
      Vp == Sqrt(CAbs(M)/rho)/Cos(th/2)
  IN << Vp, (w/Vp)*Tan(th/2), Ks >>
WDOk(a) ==
  LET x == WDalpha(a, 1)  y == WDalpha(a, 2)  ra == a[13]  rb == a[13]/Cbrt(a[14]) IN
  /\ CAbs(x)*ra > R("0.15") /\ CAbs(y)*ra > R("0.15") /\ CAbs(x)*ra < 60 /\ CAbs(y)*rb < 60
  /\ \A z \in {WDSpec(a)[3]} : Abs(z[2]) > R("0.00001")*Abs(z[1])

\* ------------------------------------------------------------- squirt
MJSpec(vph, vsh, vpd, vsd, K0, rd, rf, Kf, phi) ==
  LET Kd == ModK(rd, vpd, vsd)  Gd == ModG(rd, vsd)  Kh == ModK(rd, vph, vsh)
      Ku == GassK(Kh, K0, Kf, phi)
      Gu == 1/(1/Gd - (4*(1/Kd - 1/Kh))/15)
      r  == rd + phi*rf
  IN << Ku, Gu, VelP(Ku, Gu, r), VelS(Gu, r) >>
\* Sd, Sh: <<S11, S12, S13, S33, S44>>.  shipped: two subscripts of the sums are wrong
NoSoft(Sd, Sh) == \A i \in 1..5 : Sd[i] = Sh[i]
SquirtSpec(Sd, Sh, shipped) ==
  LET d == [i \in 1..5 |-> Sd[i] - Sh[i]]
      q == 2*d[1] + 2*d[2] + 4*d[3] + d[4]
      D == [i \in 1..5 |-> d[i]/q]
      abab == IF shipped THEN 2*D[1] + D[4] + 4*D[5] + 4*(D[1] - D[2])
              ELSE 2*D[1] + D[4] + D[5] + (D[1] - D[2])
      al == (abab - 1)/4
      T == 1 - 4*al
      G11 == D[1] - (4*al*(D[2] + D[3]))/T
      G33 == D[4] - (8*al*D[3])/T
      G44 == IF shipped THEN D[5]/T - (D[1] + D[3])/(4*T) + (G11 + G33)/4
             ELSE 4*((D[5]/4)/T - (D[1] + D[4])/(4*T) + (G11 + G33)/4)
      G == <<G11, D[2]/T, D[3]/T, G33, G44>>
  IN IF ~shipped /\ NoSoft(Sd, Sh) THEN Sd ELSE [i \in 1..5 |-> Sd[i] - q*G[i]]
SquirtT(Sd, Sh) ==
  LET d == [i \in 1..5 |-> Sd[i] - Sh[i]]  q == 2*d[1] + 2*d[2] + 4*d[3] + d[4]
  IN 2 - (2*d[1] + d[4] + 4*d[5] + 4*(d[1] - d[2]))/q

BrieSpec(Kw, Kg, Sw, e) == Kg + (Kw - Kg)*Sw^e

CallFluid(f, a) ==
  CASE f = "Brie" -> <<BrieSpec(a[1], a[2], a[3], a[4])>>
    [] f = "Biot" -> BiotSpec(a)
    [] f = "Biot_HF" -> BiotHF(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
    [] f = "Geertsma_Smit_HF" -> GeertsHF(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
    [] f = "Geertsma_Smit_LF" -> <<GeertsLF(a[1], a[2], a[3], a[4], a[5], a[6], a[7])>>
    [] f = "Gassmann" -> <<GassK(a[1], a[3], a[4], a[5]), a[2]>>
    [] f = "Gassmann_sub" -> <<GassSub(a[1], a[2], a[3], a[4], a[5])>>
    [] f = "vels" -> LET r == a[4]*(1 - a[7]) + a[6]*a[7] IN
                     <<VelP(GassK(a[1], a[3], a[5], a[7]), a[2], r), VelS(a[2], r), r>>
    [] f = "Gassmann_vels" -> GassVels(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    [] f = "Gassmann_approx" -> <<GassSub(a[4], a[2], a[1], a[3], a[5])>>
    [] f = "Brown_Korringa_dry2sat" -> <<BKdry2sat(a[1], a[2], a[3], a[4], a[5])>>
    [] f = "Brown_Korringa_sat2dry" -> <<BKsat2dry(a[1], a[2], a[3], a[4], a[5])>>
    [] f = "Brown_Korringa_sub" -> BKsub(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "Mavko_Jizba" -> MJSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    [] f = "Squirt_anisotropic" -> <<SquirtSpec(a[1], a[2], FALSE)>>
    [] f = "White_Dutta_Ode" -> WDSpec(a)
AltFluid(f, a) ==
  CASE f = "Squirt_anisotropic" -> <<IF NoSoft(a[1], a[2]) THEN "F11" ELSE "F10", <<SquirtSpec(a[1], a[2], TRUE)>> >>
    [] OTHER -> <<>>

OpsFluid == <<"Brie", "Biot", "Biot_HF", "Geertsma_Smit_HF", "Geertsma_Smit_LF", "Gassmann", "Gassmann_sub",
              "vels", "Gassmann_vels", "Gassmann_approx", "Brown_Korringa_dry2sat", "Brown_Korringa_sat2dry",
              "Brown_Korringa_sub", "Mavko_Jizba", "Squirt_anisotropic", "White_Dutta_Ode">>
Tup(ranges) == Par("t", 0, 0, FALSE, <<>>, ranges)
SigFluid(f) ==
  CASE f = "Brie" -> SigR(<<E("1", "5"), E("0.0005", "1.6"), EX("0", "1", <<0, 1>>), EX("0.05", "40", <<1, 2, 3, R("0.5")>>)>>)
    [] f = "Biot" -> [SigR(<<SL("0.05", "18"), SL("0.05", "20"), Sc("20", "80"), SL("0.02", "3.5"), Sc("2.2", "3"), Sc("0.1", "1.3"),
                            SL("0.3", "3"), Sc("0.03", "0.4"), SL("0.001", "0.1"), SL("0.01", "3"), SX("1", "3.5", <<1>>), AL("0.01", "10000")>>)
                      EXCEPT !.n = 12, !.t = R("1e-6"), !.far = FALSE, !.ab = <<0, 0, 0, R("1e-8"), R("1e-8"), R("1e-8")>>]
    [] f = "Biot_HF" -> SigR(<<EL("0.01", "18"), EL("0.01", "20"), E("20", "80"), EL("0.02", "3.5"), E("2.2", "3"), E("0.1", "1.3"), E("0.03", "0.4"), EX("1", "3.5", <<1>>)>>)
    [] f = "Geertsma_Smit_HF" -> SigR(<<EL("0.01", "18"), EL("0.01", "20"), E("20", "80"), EL("0.02", "3.5"), E("2.2", "3"), E("0.1", "1.3"), E("0.03", "0.4"), EX("1", "3.5", <<1>>)>>)
    [] f = "Geertsma_Smit_LF" -> SigR(<<E("2000", "3000"), E("3000", "4000"), EL("0.01", "100000"), E("0.03", "0.4"), E("0.1", "1.3"), EL("0.001", "1"), EL("0.001", "3")>>)
    [] f = "Gassmann" -> SigR(<<E("0.05", "45"), EX("0", "60", <<0>>), E("20", "100"), EL("0.0005", "5"), EX("0", "0.95", <<0, 1>>)>>)
    [] f = "Gassmann_sub" -> SigR(<<E("0.02", "0.45"), E("34", "80"), E("10", "28"), EL("0.05", "3.5"), EL("0.005", "3.5")>>)
    [] f = "vels" -> SigR(<<E("0.05", "45"), EX("0", "60", <<0>>), E("20", "100"), E("1.5", "4"), EL("0.0005", "5"), E("0.001", "1.6"), EX("0", "0.95", <<0, 1>>)>>)
    [] f = "Gassmann_vels" -> [SigR(<<E("2.6", "3.6"), E("1.2", "2"), E("1.9", "2.4"), E("0.1", "1.3"), EL("0.05", "3.2"), E("0.1", "1.3"), EL("0.005", "3.2"), E("36", "80"), E("0.05", "0.4")>>) EXCEPT !.n = 100]
    [] f = "Gassmann_approx" -> SigR(<<E("20", "40"), E("60", "110"), EL("0.05", "3.5"), E("0.02", "0.45"), EL("0.005", "3.5")>>)
    [] f = "Brown_Korringa_dry2sat" -> SigR(<<Mx("SDRY"), Sc("35", "80"), Sc("20", "50"), SL("0.02", "90"), SX("0", "0.4", <<0>>)>>)
    [] f = "Brown_Korringa_sat2dry" -> SigR(<<Mx("SSAT"), Sc("40", "80"), Sc("20", "50"), SL("0.02", "2.5"), Sc("0.15", "0.4")>>)
    [] f = "Brown_Korringa_sub" -> SigR(<<Mx("CSAT"), Sc("40", "80"), Sc("20", "50"), SL("0.02", "2.5"), SL("0.02", "90"), Sc("0.15", "0.4")>>)
    [] f = "Mavko_Jizba" -> SigR(<<E("3500", "5500"), E("2100", "3000"), E("2600", "5500"), E("1300", "3000"), E("30", "100"), E("1.8", "2.9"), E("0.1", "1.2"), EL("0.01", "3"), E("0.02", "0.35")>>)
    [] f = "Squirt_anisotropic" ->
         [SigR(<<Tup(<< <<R("0.03"), R("0.06")>>, <<R("-0.012"), R("-0.001")>>, <<R("-0.012"), R("-0.001")>>, <<R("0.04"), R("0.09")>>, <<R("0.06"), R("0.12")>> >>),
                 Tup(<< <<R("0.015"), R("0.025")>>, <<R("-0.005"), R("-0.002")>>, <<R("-0.005"), R("-0.002")>>, <<R("0.015"), R("0.03")>>, <<R("0.03"), R("0.05")>> >>)>>)
          EXCEPT !.w = TRUE]
    [] f = "White_Dutta_Ode" ->
         [SigR(<<SL("0.1", "18"), SL("0.1", "20"), Sc("25", "90"), Sc("0.02", "0.45"), Sc("2.2", "3"), Sc("0.02", "1.3"), Sc("0.02", "1.3"),
                 SL("0.02", "3.5"), SL("0.02", "3.5"), SL("0.01", "1"), SL("0.1", "3"), SL("0.001", "0.1"), SL("0.01", "1"), SX("0.001", "0.98", <<R("0.01")>>), EL("0.001", "10")>>)
          EXCEPT !.n = 20, !.t = R("1e-6")]
PreFluid(f, a) ==
  CASE f = "Biot" -> \A z \in {Sqrt((2*Pi*a[12]*a[10]*a[10]*a[6])/a[7])} :
                       ~(z > R("0.09") /\ z < R("0.11")) /\ ~(z > 900 /\ z < 1100)
    [] f = "White_Dutta_Ode" -> WDOk(a)
    [] f = "Squirt_anisotropic" -> NoSoft(a[1], a[2]) \/ Abs(SquirtT(a[1], a[2])) > R("0.05")
    [] f = "Mavko_Jizba" -> /\ ModK(a[6], a[3], a[4]) > 1 /\ ModK(a[6], a[1], a[2]) > 1
                             /\ \A u \in {MJSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])} : u[1] > 0 /\ u[2] > 0
    [] f = "Gassmann_sub" -> GassDry(a[3], a[2], a[4], a[1]) > R("0.5")
    [] f = "Gassmann_vels" -> GassDry(a[3]*a[1]*a[1] - (4*a[3]*a[2]*a[2])/3, a[8], a[5], a[9]) > R("0.5")
    [] f = "Gassmann_approx" -> GassDry(a[1], a[2], a[3], a[4]) > R("0.5")
    [] OTHER -> TRUE
=============================================================================
