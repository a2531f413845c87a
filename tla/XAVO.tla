-------------------------------- MODULE XAVO --------------------------------
(* rockphypy.AVO: reflectivity against angle and azimuth, elastic impedance. *)
EXTENDS Sig

\* ---- Ruger's weak-contrast P reflectivity of an interface between two HTI media
RugerHTI(d1, d2, C1, C2, th, az) ==
  LET Mat(C, d) == [al |-> Sqrt(C[3][3]/d), be |-> Sqrt(C[4][4]/d), mu |-> C[4][4],
                    ga |-> (C[4][4] - C[6][6])/(2*C[6][6]),
                    ep |-> (C[1][1] - C[3][3])/(2*C[3][3]),
                    de |-> (Sq(C[1][3] + C[5][5]) - Sq(C[3][3] - C[5][5]))
                           / (2*C[3][3]*(C[3][3] - C[5][5])),
                    z  |-> d*Sqrt(C[3][3]/d)]
      u == Mat(C1, d1)  l == Mat(C2, d2)
      Rel(x, y) == (2*(y - x))/(x + y)
      k  == Sq((2*(u.be + l.be))/(u.al + l.al))
      c2 == Sq(Cos(Deg(az)))  s2 == Sq(Sin(Deg(az)))
      S2 == Sq(Sin(Deg(th)))  T2 == Sq(Tan(Deg(th)))
  IN Rel(u.z, l.z)/2
     + (((Rel(u.al, l.al) - k*Rel(u.mu, l.mu)) + ((l.de - u.de) + 2*k*(l.ga - u.ga))*c2)/2) * S2
     + ((Rel(u.al, l.al) + (l.ep - u.ep)*c2*c2 + (l.de - u.de)*s2*c2)/2) * S2*T2

\* ---- Aki & Richards weak contrast, theta in degrees -> <<Rpp, Rps, intercept, gradient>>
AkiRich(th, vp1, vp2, vs1, vs2, d1, d2) ==
  LET vp == (vp1+vp2)/2  vs == (vs1+vs2)/2  d == (d1+d2)/2
      rp == (vp2-vp1)/vp  rs == (vs2-vs1)/vs  rd == (d2-d1)/d
      t == Deg(th)  s2 == Sq(Sin(t))
      icpt == (rp + rd)/2
      m == -4*Sq(vs/vp)*rs - 2*Sq(vs/vp)*rd
      p == Sin(t)/vp1
      cs == Sqrt(1 - Sq(p*vs1))
      x == (vs*Cos(t)*cs)/vp
  IN << icpt + m*s2 + (rp/2)*Sq(Tan(t)),
        -((p*vp)/(2*cs)) * ((1 - 2*Sq(vs*p) + 2*x)*rd - (4*Sq(vs*p) - 4*x)*rs),
        icpt, m + rp/2 >>

\* ---- exact plane-wave coefficients in terms of the ray parameter p and the angle of incidence
ZoepP(vp1, vs1, r1, vp2, vs2, r2, t1, p) ==
  LET t2 == Asin(p*vp2)  f1 == Asin(p*vs1)  f2 == Asin(p*vs2)
      q1 == Sq(Sin(f1))  q2 == Sq(Sin(f2))
      a == r2*(1 - 2*q2) - r1*(1 - 2*q1)
      b == r2*(1 - 2*q2) + 2*r1*q1
      c == r1*(1 - 2*q1) + 2*r2*q2
      d == 2*(r2*vs2*vs2 - r1*vs1*vs1)
      i1 == Cos(t1)/vp1  i2 == Cos(t2)/vp2  j1 == Cos(f1)/vs1  j2 == Cos(f2)/vs2
      EE == b*i1 + c*i2   FF == b*j1 + c*j2
      GG == a - d*i1*j2   HH == a - d*i2*j2
      DD == EE*FF + GG*HH*p*p
  IN << ((b*i1 - c*i2)*FF - (a + d*i1*j2)*HH*p*p)/DD,
        -(2*i1*(a*b + c*d*i2*j2)*p*vp1)/(vs1*DD) >>
\* H contains i2*j1 in Aki & Richards; the exact system below decides
ZoepSolve(vp1, vs1, r1, vp2, vs2, r2, t1) ==
  LET p == Sin(t1)/vp1
      f1 == Asin(p*vs1)  t2 == Asin(p*vp2)  f2 == Asin(p*vs2)
      \* unknowns: reflected P, reflected S, transmitted P, transmitted S (Aki & Richards 5.2)
      M == << << -(vp1*p), -Cos(f1), vp2*p, Cos(f2) >>,
              << Cos(t1), -(vs1*p), Cos(t2), -(vs2*p) >>,
              << 2*r1*vs1*vs1*p*Cos(t1), r1*vs1*(1 - 2*Sq(vs1*p)), 2*r2*vs2*vs2*p*Cos(t2), r2*vs2*(1 - 2*Sq(vs2*p)) >>,
              << -(r1*vp1*(1 - 2*Sq(vs1*p))), 2*r1*vs1*vs1*p*Cos(f1), r2*vp2*(1 - 2*Sq(vs2*p)), -(2*r2*vs2*vs2*p*Cos(f2)) >> >>
      n == << vp1*p, Cos(t1), 2*r1*vs1*vs1*p*Cos(t1), r1*vp1*(1 - 2*Sq(vs1*p)) >>
      iM == Force(MatInv(M))
  IN [i \in 1..4 |-> Dot(iM[i], n)]
ZoepSpec(a)    == LET z == ZoepSolve(a[1], a[2], a[3], a[4], a[5], a[6], Deg(a[7])) IN <<z[1], z[2]>>
\* as shipped: the ray parameter is formed from the sine of the angle in degrees
ZoepShipped(a) == ZoepP(a[1], a[2], a[3], a[4], a[5], a[6], Deg(a[7]), Sin(a[7])/a[1])

\* ---- Castagna-type attributes
AbeSpec(vp1, vs1, d1, vp2, vs2, d2) ==
  LET d == (d1+d2)/2  vp == (vp1+vp2)/2  vs == (vs1+vs2)/2
      rd == (d2-d1)/d  rp == (vp2-vp1)/vp  rs == (vs2-vs1)/vs
      Nu(p, s) == (Sq(p/s) - 2)/(2*(Sq(p/s) - 1))
      n1 == Nu(vp1, vs1)  n2 == Nu(vp2, vs2)  n == (n1+n2)/2
      R0 == (rp + rd)/2
      B == rp/(rp + rd)
      g == vs/vp
  IN << R0,
        (B - (2*(1 + B)*(1 - 2*n))/(1 - n))*R0 + (n2 - n1)/Sq(1 - n),
        rp/2 - 2*g*g*rd - 4*g*g*rs,
        -rd/2 - g*(rd + 2*rs) + g*g*g*(rd/2 + rs),
        -2*(vs1/vp1)*(rd*(Half + 1/(4*g)) + rs) >>

\* ---- elastic impedances of one sample; np, ns, nr: normalisation (1 when norm is off)
EISpec(Vp, Vs, rho, th, SP, mp, ms, mr, norm) ==
  LET t == Deg(th)
      ip == IF norm THEN mp*mr ELSE 1
      is == IF norm THEN ms*mr ELSE 1
      vp == IF norm THEN Vp/mp ELSE Vp
      vs == IF norm THEN Vs/ms ELSE Vs
      r  == IF norm THEN rho/mr ELSE rho
      s  == Sin(t)   c == Cos(t)
      ts == Asin((s*Vs)/Vp)
      ss == Sin(ts)  sc == Cos(ts)
      k1 == Sqrt(1 - Sq(SP*s))
      k2 == Sqrt(1 - Sq(ss/SP))
  IN << ip * vp^(1 + Sq(s/c)) * vs^(-8*Sq(SP*s)) * r^(1 - 4*Sq(SP*s)),
        ip * vs^((s/k1)*(4*Sq(SP*s) - 4*SP*c*k1)) * r^(-(s/k1)*(1 - 2*Sq(SP*s) + 2*SP*c*k1)),
        is * vs^((ss/k2)*(4*ss*ss - 4*SP*sc*k2)) * r^(-(ss/k2)*(1 - 2*ss*ss + 2*SP*sc*k2)),
        is * vs^(8*ss*ss - 1/(sc*sc)) * r^(4*ss*ss - 1),
        (is * vs^(Sq(ss/sc) - 1)) / r >>

OrthoAVO(a) ==
  LET a1 == a[1]  b1 == a[2]  e11 == a[3]  d11 == a[4]  e12 == a[5]  d12 == a[6]  g1 == a[7]  r1 == a[8]
      a2 == a[9]  b2 == a[10] e21 == a[11] d21 == a[12] e22 == a[13] d22 == a[14] g2 == a[15] r2 == a[16]
      t == Deg(a[17])  s2 == Sq(Sin(t))  t2 == Sq(Tan(t))
      Rel(x, y) == (2*(y - x))/(x + y)
      zz == Rel(r1*a1, r2*a2)/2   ra == Rel(a1, a2)   rg == Rel(r1*b1*b1, r2*b2*b2)
      k == Sq((2*(b1+b2))/(a1+a2))
  IN << zz + ((ra - k*(rg - 2*(g2-g1)) + d22 - d12)/2)*s2 + ((ra + e22 - e12)/2)*s2*t2,
        zz + ((ra - k*rg + d21 - d11)/2)*s2 + ((ra + e21 - e11)/2)*s2*t2 >>

IsSeq(x) == KindOf(x) = "seq"
Ix(x, i) == IF IsSeq(x) THEN x[i] ELSE x
AsSeq(x) == IF IsSeq(x) THEN x ELSE <<x>>
MeanOf(x) == SumSeq(AsSeq(x)) / Len(AsSeq(x))

\* whole-call forms: layers along rows, angles along columns
CallAVO(f, a) ==
  CASE f = "AVO_HTI" ->
         LET th == AsSeq(a[5])  az == AsSeq(a[6]) IN
         << [i \in 1..Len(az) |-> [j \in 1..Len(th) |-> RugerHTI(a[1], a[2], a[3], a[4], th[j], az[i])]] >>
    [] f = "Aki_Richards" ->
         LET th == AsSeq(a[1])  N == Len(AsSeq(a[2]))
             Q == Force([i \in 1..N |-> [j \in 1..Len(th) |->
                    AkiRich(th[j], Ix(a[2], i), Ix(a[3], i), Ix(a[4], i), Ix(a[5], i), Ix(a[6], i), Ix(a[7], i))]])
         IN << [i \in 1..N |-> [j \in 1..Len(th) |-> Q[i][j][1]]],
               [i \in 1..N |-> [j \in 1..Len(th) |-> Q[i][j][2]]],
               [i \in 1..N |-> Q[i][1][3]], [i \in 1..N |-> Q[i][1][4]] >>
    [] f = "zoeppritz" -> ZoepSpec(a)
    [] f = "AVO_abe" -> AbeSpec(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "EI_ref" ->
         LET th == AsSeq(a[4])  N == Len(AsSeq(a[1]))  norm == IF Len(a) < 6 THEN TRUE ELSE Truth(a[6])
             mp == MeanOf(a[1])  ms == MeanOf(a[2])  mr == MeanOf(a[3])
             Q == Force([i \in 1..N |-> [j \in 1..Len(th) |->
                    EISpec(Ix(a[1], i), Ix(a[2], i), Ix(a[3], i), th[j], a[5], mp, ms, mr, norm)]])
         IN [c \in 1..5 |-> [i \in 1..N |-> [j \in 1..Len(th) |-> Q[i][j][c]]]]
    [] f = "AVO_ortho" -> OrthoAVO(a)
AltAVO(f, a) ==
  CASE f = "zoeppritz" -> <<"F1", ZoepShipped(a)>>
    [] OTHER -> <<>>

OpsAVO == <<"AVO_HTI", "Aki_Richards", "zoeppritz", "AVO_abe", "EI_ref", "AVO_ortho">>
Ani == E("-0.15", "0.3")
SigAVO(f) ==
  CASE f = "AVO_HTI" -> [SigR(<<Sc("1.8", "2.9"), Sc("1.8", "2.9"), Mx("HTI"), Mx("HTI"), AX("-60", "75", <<0>>), VX("-180", "360", <<0, 90, 180>>)>>)
                            EXCEPT !.w = TRUE, !.n = 20, !.vlo = 1, !.vhi = 7, !.vb = 64]
    [] f = "Aki_Richards" -> [SigR(<<VX("-75", "80", <<0>>), E("1500", "7000"), E("1500", "7000"), E("200", "3500"), E("200", "3500"), E("1.2", "3.3"), E("1.2", "3.3")>>)
                            EXCEPT !.w = TRUE, !.mix = FALSE, !.n = 20, !.vlo = 1, !.vhi = 7, !.vb = 64]
    [] f = "zoeppritz" -> [SigR(<<E("1500", "6500"), E("300", "3200"), E("1.2", "3.3"), E("1500", "6500"), E("300", "3200"), E("1.2", "3.3"), EX("0", "75", <<0>>)>>) EXCEPT !.n = 100]
    [] f = "AVO_abe" -> SigR(<<E("1500", "7000"), E("200", "3500"), E("1.2", "3.3"), E("1500", "7000"), E("200", "3500"), E("1.2", "3.3")>>)
    [] f = "EI_ref" -> [SigR(<<E("2200", "6500"), E("500", "3000"), E("1.3", "3.2"), VX("-50", "70", <<0>>), Sc("0.3", "0.8"), Ch(<<TRUE, FALSE, 1, 0>>)>>)
                            EXCEPT !.w = TRUE, !.mix = FALSE, !.n = 20, !.vlo = 1, !.vhi = 7, !.vb = 64, !.req = 5]
    [] f = "AVO_ortho" -> [SigR(<<E("2500", "5000"), E("1000", "2400"), Ani, Ani, Ani, Ani, Ani, E("1.6", "3"),
                                  E("2500", "5000"), E("1000", "2400"), Ani, Ani, Ani, Ani, Ani, E("1.6", "3"), EX("-50", "75", <<0>>)>>) EXCEPT !.n = 100]
\* scalars only (elements of elementwise operations), or the whole call
PreAVO(f, a) ==
  CASE f = "zoeppritz" -> /\ Abs(a[7]) < 85 /\ (Sin(Deg(a[7]))*MaxR(a[4], MaxR(a[5], a[2])))/a[1] < R("0.98")
                        /\ a[2] < R("0.8")*a[1] /\ a[5] < R("0.8")*a[4]
    [] f = "Aki_Richards" -> /\ \A j \in 1..Len(AsSeq(a[1])) : Abs(AsSeq(a[1])[j]) < 85
                           /\ \A i \in 1..Len(AsSeq(a[2])) : Ix(a[4], i) < R("0.8")*Ix(a[2], i) /\ Ix(a[5], i) < R("0.8")*Ix(a[3], i)
    [] f = "AVO_abe" -> Abs((a[4]-a[1])/(a[4]+a[1]) + (a[6]-a[3])/(a[6]+a[3])) > R("0.0005")
    [] f = "EI_ref" ->
         \A i \in 1..Len(AsSeq(a[1])) : \A j \in 1..Len(AsSeq(a[4])) :
            Abs(AsSeq(a[4])[j]) < 85 /\ Abs(Sin(Deg(AsSeq(a[4])[j])))*a[5] < R("0.95") /\ \A q \in {(Abs(Sin(Deg(AsSeq(a[4])[j])))*Ix(a[2], i))/Ix(a[1], i)} :
                 q < R("0.99") /\ Abs(q/a[5] - 1) > R("0.05")
    [] OTHER -> TRUE
=============================================================================
