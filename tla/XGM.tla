-------------------------------- MODULE XGM --------------------------------
(* rockphypy.GM: granular media.  Every diagenetic trend is the two-phase     *)
(* mixing rule of MathK between an end member and the mineral, seen from a    *)
(* connecting phase. *)
EXTENDS Sig

\* ------------------------------------------------------------- end members
\* Hertz-Mindlin, sigma in MPa; f = 1 rough (no slip), f = 0 smooth
HM(K0, G0, phic, Cn, sigma, f) ==
  LET nu == PoiR(K0, G0)  s == sigma/1000
      x == (Cn*(1 - phic)*G0)/(Pi*(1 - nu))
      K == Cbrt((x*x*s)/18)
  IN << K, (3*K*(2 + 3*f - nu*(1 + 3*f)))/(5*(2 - nu)) >>
WaltonSpec(K0, G0, phic, Cn, sigma, f) ==
  LET la == Lame(K0, G0)  nu == PoiR(K0, G0)
      B == (1/G0 + 1/(G0 + la))/(4*Pi)
      K == Cbrt(((3*Sq(Cn*(1 - phic))*sigma)/1000)/(P4(Pi)*B*B))/6
      smooth == (3*K)/5   rough == (((3*K)/5)*(5 - 4*nu))/(2 - nu)
  IN << K, smooth + f*(rough - smooth) >>
\* Digby: b/R from  d^3 + 3/2 a^2 d - 3 pi (1-nu) sigma / (2 Cn (1-phi) G) = 0,  b^2 = d^2 + a^2
DigbySpec(K0, G0, phi, Cn, sigma, aR) ==
  LET nu == PoiR(K0, G0)
      c == (3*Pi*(1 - nu)*(sigma/1000))/(2*Cn*(1 - phi)*G0)
      F(d) == d*d*d + (3*aR*aR*d)/2 - c
      d == IF c > 0 THEN Bisect(F, R("0"), Cbrt(c) + R("1e-3"), 70) ELSE R("0")
      b == Sqrt(d*d + aR*aR)
      Sn == (4*G0*b)/(1 - nu)   St == (8*G0*aR)/(2 - nu)
      k == (Cn*(1 - phi))/Pi
  IN << (k*Sn)/12, (k*(Sn + (3*St)/2))/20 >>
\* Dvorkin's contact cement
ContactCem(K0, G0, Kc, Gc, phi, phic, Cn, scheme) ==
  LET n0 == PoiR(K0, G0)  nc == PoiR(Kc, Gc)
      s == (phic - phi)/(3*(1 - phic))            \* cement fraction of the grains / 3
      al == IF scheme = 1 THEN 2*Sqrt(Sqrt(s/Cn)) ELSE Sqrt(2*s)
      LN == (2*Gc*(1 - n0)*(1 - nc))/(Pi*G0*(1 - 2*nc))
      LT == Gc/(Pi*G0)
      Sn == R("-0.024153")*LN^R("-1.3646")*al*al + R("0.20405")*LN^R("-0.89008")*al + R("0.00024649")*LN^R("-1.9864")
      Pol(x, y, z) == x*n0*n0 + y*n0 + z
      At1 == -(Pol(R("2.26"), R("2.07"), R("2.3"))/100) * LT^Pol(R("0.079"), R("0.1754"), R("-1.342"))
      Bt == Pol(R("0.0573"), R("0.0937"), R("0.202")) * LT^Pol(R("0.0274"), R("0.0529"), R("-0.8765"))
      Ct == (Pol(R("9.654"), R("4.945"), R("3.1"))/10000) * LT^Pol(R("0.01867"), R("0.4011"), R("-1.8186"))
      St == At1*al*al + Bt*al + Ct
      K == (Cn*(1 - phic)*(Kc + (4*Gc)/3)*Sn)/6
  IN << K, (3*K)/5 + (3*Cn*(1 - phic)*Gc*St)/20 >>

\* ------------------------------------------------------------- trends
\* fraction x of the end member e = <<K,G>>, the rest mineral, connecting phase z = <<K,G>>
Trend(x, e, K0, G0, z) ==
  << MixK(x, e[1], e[2], K0, G0, z[1], z[2]), MixG(x, e[1], e[2], K0, G0, z[1], z[2]) >>
SoftSpec(K0, G0, phi, phic, Cn, sg, f)  == LET h == Force(HM(K0, G0, phic, Cn, sg, f)) IN Trend(phi/phic, h, K0, G0, h)
StiffSpec(K0, G0, phi, phic, Cn, sg, f) == LET h == Force(HM(K0, G0, phic, Cn, sg, f)) IN Trend(phi/phic, h, K0, G0, <<K0, G0>>)
ConstCem(phib, K0, G0, Kc, Gc, phi, phic, Cn, sch) ==
  LET b == Force(ContactCem(K0, G0, Kc, Gc, phib, phic, Cn, sch)) IN Trend(phi/phib, b, K0, G0, b)
MuhsSpec(K0, G0, Kc, Gc, phi, phib, phic, Cn, sch) ==
  LET b == Force(ContactCem(K0, G0, Kc, Gc, phib, phic, Cn, sch)) IN Trend(phi/phib, b, K0, G0, <<K0, G0>>)
\* patchy cementation: cemented and uncemented ends mixed at the high-porosity end
PcmEnds(sg, K0, G0, phic, vcem, vci, Kc, Gc, Cn, sch, f_) ==
  << HM(K0, G0, phic, Cn, sg, f_),
     IF vcem <= vci THEN ContactCem(K0, G0, Kc, Gc, phic - vcem, phic, Cn, sch)
     ELSE MuhsSpec(K0, G0, Kc, Gc, phic - vcem, phic - vci, phic, Cn, sch) >>
PcmMix(f, e, stiff) == LET z == IF stiff THEN e[2] ELSE e[1] IN Trend(f, e[2], e[1][1], e[1][2], z)
PcmSpec(f, sg, K0, G0, phi, phic, vcem, vci, Kc, Gc, Cn, mode, sch, f_) ==
  LET e == Force(PcmEnds(sg, K0, G0, phic, vcem, vci, Kc, Gc, Cn, sch, f_))
      p == Force(PcmMix(f, e, mode = "stiff"))
  IN  Trend(phi/phic, p, K0, G0, p)
VpcmSpec(al, f, sg, K0, G0, phi, phic, vcem, vci, Kc, Gc, Cn, sch, f_) ==
  LET e == Force(PcmEnds(sg, K0, G0, phic, vcem, vci, Kc, Gc, Cn, sch, f_))
      st == Force(PcmMix(f, e, TRUE))  so == Force(PcmMix(f, e, FALSE))
      p == << st[1] + al*(so[1] - st[1]), st[2] + al*(so[2] - st[2]) >>
  IN  Trend(phi/phic, p, K0, G0, p)
DilSpec(k, s0, s, m) == LET b == 1 - s/s0 IN IF b > 0 THEN k*b^m ELSE R("0")

\* ------------------------------------------------------------- sand / shale
ThomasSt(ps, psh, v) == << MaxR(ps - (1 - psh)*v, psh*v), ps + (psh - ps)*v >>
SiltySh(C, Kq, Gq, Ksh, Gsh) == << MixK(C, Ksh, Gsh, Kq, Gq, Ksh, Gsh), MixG(C, Ksh, Gsh, Kq, Gq, Ksh, Gsh) >>
ShalySd(phis, C, Kss, Gss, Kcc, Gcc) ==
  << MixK(1 - C/phis, Kss, Gss, Kcc, Gcc, Kss, Gss), MixG(1 - C/phis, Kss, Gss, Kcc, Gcc, Kss, Gss) >>

\* ------------------------------------------------------------- stress-induced anisotropy
\* shipped: the logarithm of I0 and the expression of C11 differ from Norris & Johnson
JohnsonSpec(K0, G0, n, phi, e, e3, path, shipped) ==
  LET nu == PoiR(K0, G0)
      Cn == (4*G0)/(1 - nu)   Ct == (8*G0)/(2 - nu)
      B == 2/(Pi*Cn)   C == (4/Pi)*(1/Ct - 1/Cn)
      ga == (3*Cn*Ct*n*(1 - phi)*Sqrt(-e))/32
      al == Sqrt(e/e3)   a2 == al*al   rt == Sqrt(1 + a2)
      I0 == (rt + a2*Ln(IF shipped THEN 1 + rt/al ELSE (1 + rt)/al))/2
      I2 == (rt*rt*rt - a2*I0)/4
      I4 == (rt*rt*rt - 3*a2*I2)/6
      g == ga/al
      c11 == IF shipped THEN g*((4*B)/3 + (2*C)/5 + a2*((2*B)/15 + C/35))
             ELSE g*(2*B*(I0 - I2) + (3*C*(I0 - 2*I2 + I4))/4)
      T == -(((-e)^(3/2))*(1 - phi)*n)/(4*Pi*al*al*al)
      n33 == a2*I2 + I4
      n11 == a2*I0 + (1 - a2)*I2 - I4
      tt == CASE path = "together" -> I2 - I4
              [] path = "uni_iso" -> 1/12
              [] OTHER -> n11 - (2*al*al*al)/3
  IN << VTI(c11, g*(4*B*I2 + 2*C*I4), g*C*(I2 - I4), g*((B*(I0 + I2))/2 + C*(I2 - I4)),
            g*(B*(I0 - I2) + (C*(I0 - 2*I2 + I4))/4)),
        2*T*(Ct*tt + Cn*n33), T*(Cn*n11 - Ct*tt) >>

JPath(a) == IF Len(a) < 7 THEN "together" ELSE a[7]
CallGM(f, a) ==
  CASE f = "ThomasStieber" -> ThomasSt(a[1], a[2], a[3])
    [] f = "silty_shale" -> SiltySh(a[1], a[2], a[3], a[4], a[5])
    [] f = "shaly_sand" -> ShalySd(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "contactcement" -> ContactCem(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
    [] f = "hertzmindlin" -> HM(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "softsand" -> SoftSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    [] f = "Walton" -> WaltonSpec(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "johnson" -> JohnsonSpec(a[1], a[2], a[3], a[4], a[5], a[6], JPath(a), FALSE)
    [] f = "stiffsand" -> StiffSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    [] f = "constantcement" -> ConstCem(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    [] f = "MUHS" -> MuhsSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    [] f = "Digby" -> DigbySpec(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "pcm" -> PcmSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14])
    [] f = "diluting" -> <<DilSpec(a[1], a[2], a[3], a[4])>>
    [] f = "vpcm" -> VpcmSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14])
AltGM(f, a) ==
  CASE f = "johnson" -> <<"F8", JohnsonSpec(a[1], a[2], a[3], a[4], a[5], a[6], JPath(a), TRUE)>>
    [] OTHER -> <<>>
OpsGM == <<"ThomasStieber", "silty_shale", "shaly_sand", "contactcement", "hertzmindlin", "softsand", "Walton",
           "johnson", "stiffsand", "constantcement", "MUHS", "Digby", "pcm", "diluting", "vpcm">>
K0p == E("10", "90")
G0p == E("6", "70")
Kcp == E("3", "90")
Gcp == E("1", "60")
Phic == EX("0.3", "0.5", <<R("0.4")>>)
Cnp == EX("2", "16", <<6, 9>>)
Sgp == EX("0.01", "100", <<20>>)
Ff == EX("0", "1", <<0, 1>>)
Sch == Ch(<<1, 2>>)
SigGM(f) ==
  CASE f = "ThomasStieber" -> SigR(<<E("0.05", "0.5"), E("0.01", "0.6"), EX("0", "1", <<0, 1>>)>>)
    [] f = "silty_shale" -> SigR(<<Ff, E("10", "90"), E("5", "70"), E("1", "60"), E("0.5", "50")>>)
    [] f = "shaly_sand" -> SigR(<<E("0.25", "0.45"), EX("0", "0.3", <<0>>), E("2", "60"), E("1", "50"), E("1", "60"), E("0.5", "40")>>)
    [] f = "contactcement" -> SigR(<<K0p, G0p, Kcp, Gcp, E("0.05", "0.46"), Phic, Cnp, Sch>>)
    [] f = "hertzmindlin" -> SigR(<<K0p, G0p, Phic, Cnp, EX("0", "200", <<0, 1, 20, R("0.01")>>), Ff>>)
    [] f = "softsand" -> SigR(<<K0p, G0p, EX("0", "0.48", <<0>>), Phic, Cnp, Sgp, Ff>>)
    [] f = "Walton" -> SigR(<<K0p, G0p, Phic, Cnp, EX("0", "200", <<0, 1, 20, R("0.01")>>), Ff>>)
    [] f = "johnson" -> [SigR(<<Sc("25", "80"), Sc("20", "60"), Sc("2", "16"), Sc("0.2", "0.6"), SX("-0.1", "-0.0001", <<R("-0.00000001"), R("-0.000001"), R("-0.0001"), R("-0.0003")>>), SX("-0.1", "-0.0001", <<R("-0.00000001"), R("-0.000001"), R("-0.0001"), R("-0.0003")>>), Ch(<<"together", "uni_iso", "iso_uni">>)>>) EXCEPT !.req = 6]
    [] f = "stiffsand" -> SigR(<<K0p, G0p, EX("0", "0.48", <<0>>), Phic, Cnp, Sgp, Ff>>)
    [] f = "constantcement" -> SigR(<<E("0.1", "0.45"), K0p, G0p, Kcp, Gcp, EX("0", "0.4", <<0>>), Phic, Cnp, Sch>>)
    [] f = "MUHS" -> SigR(<<K0p, G0p, Kcp, Gcp, EX("0", "0.4", <<0>>), E("0.1", "0.45"), Phic, Cnp, Sch>>)
    [] f = "Digby" -> [SigR(<<Sc("25", "80"), Sc("20", "60"), Sc("0.3", "0.45"), Sc("4", "12"), EX("0", "120", <<0, 20, R("0.01")>>), SX("0.0005", "0.5", <<R("0.01")>>)>>) EXCEPT !.n = 20, !.t = R("2e-6")]
    [] f = "pcm" -> [SigR(<<Ff, Sgp, K0p, G0p, EX("0", "0.45", <<0>>), Sc("0.3", "0.5"), SL("0.0005", "0.25"), SX("0.001", "0.2", <<R("0.1")>>), Kcp, Gcp, Cnp, Ch(<<"stiff", "soft">>), Sch, Ff>>) EXCEPT !.n = 100]
    [] f = "diluting" -> SigR(<<EX("0", "1.5", <<0, 1>>), EX("10", "60", <<20>>), EX("0", "80", <<0, 20>>), Ch(<<1, 2, 3, R("0.5"), R("1.5"), R("2.5"), R("0.25")>>)>>)
    [] f = "vpcm" -> [SigR(<<Ff, Ff, Sgp, K0p, G0p, EX("0", "0.45", <<0>>), Sc("0.3", "0.5"), SL("0.0005", "0.25"), SX("0.001", "0.2", <<R("0.1")>>), Kcp, Gcp, Cnp, Sch, Ff>>) EXCEPT !.n = 100]
\* porosities in their order: within the range the trend spans
PreGM(f, a) ==
  CASE f \in {"softsand", "stiffsand"} -> a[3] <= a[4]
    [] f = "shaly_sand" -> a[2] <= a[1]
    [] f = "contactcement" -> a[5] <= a[6]
    [] f = "constantcement" -> a[6] <= a[1] /\ a[1] <= a[7]
    [] f = "MUHS" -> a[5] <= a[6] /\ a[6] <= a[7]
    [] f = "pcm" -> a[5] <= a[6] /\ a[7] <= a[6] - R("0.02") /\ a[8] <= a[6] - R("0.02")
    [] f = "vpcm" -> a[6] <= a[7] /\ a[8] <= a[7] - R("0.02") /\ a[9] <= a[7] - R("0.02")
    [] OTHER -> TRUE
=============================================================================
