-------------------------------- MODULE XEmp --------------------------------
(* rockphypy.Empirical: porosity and velocity trends. *)
EXTENDS Sig
\* the piecewise-linear trend of Japsen (1998); undefined from 5300 m
JapsenV(z) == IF z < 1393 THEN 1550 + R("0.6")*z ELSE IF z < 2000 THEN 2*z - 400
              ELSE IF z < 3500 THEN 2600 + z/2 ELSE IF z < 5300 THEN 3475 + z/4 ELSE NaN
YuV(z) == IF z <= 2630 THEN R("1707.998") + R("0.66")*z ELSE R("1200.84") + R("0.853")*z
CallEmp(f, a) ==
  CASE f = "krief" -> LET m == (1 - a[1])^(3/(1 - a[1])) IN << (a[2] - (2*a[3])/3)*m, a[3]*m, a[2]*m >>
    [] f = "esti_VS" ->
         LET s == (R("0.80416")*a[1])/1000 - R("0.85588")  h == (R("0.76969")*a[1])/1000 - R("0.86735")
         IN << 500*((1 - a[2])*s + a[2]*h + 1/((1 - a[2])/s + a[2]/h)) >>
    [] f = "han" -> << 5590 - 6930*a[1] - 2810*a[2], 3520 - 4910*a[1] - 1890*a[2] >>
    [] f = "ehrenberg" -> << R("0.4802422") - (R("0.092200747")*a[1])/1000 >>
    [] f = "yu_segment_trend" -> << YuV(a[1]) >>
    [] f = "ramm_porosity" -> << IF Len(a) < 2 \/ Truth(a[2]) THEN R("0.464") - R("8.5e-5")*a[1] ELSE R("0.427") - R("6.9e-5")*a[1] >>
    [] f = "ramm_porosity_segment" -> << MinR(45*Exp(-a[1]/4000), 25 - R("0.013")*(a[1] - 2500)) >>
    [] f = "empirical_StPeter" ->
         IF Len(a) < 2 \/ a[2] = 1
         THEN << 4210 + 187*a[1] - 746*Exp(-24*a[1]), 2580 + 160*a[1] - 781*Exp(-20*a[1]) >>
         ELSE << 4550 + 298*a[1] - 800*Exp(-19*a[1]), 2830 + 195*a[1] - 741*Exp(-16*a[1]) >>
    [] f = "Scherbaum" -> << 2325 + R("0.51")*a[1] >>
    [] f = "Sclater" -> << R("3.7")*Ln(R("0.49")/a[1]) >>
    [] f = "Storvoll" -> << 2600 + a[1]/R("1.76") >>
    [] f = "Hillis" -> << 304800/(R("135.9") - R("0.02022")*a[1]) >>
    [] f = "Japsen" -> << JapsenV(a[1]) >>
    [] f = "hjelstuen" -> << 1870 + R("0.55")*a[1] >>
    [] f = "Cp" -> << 20 - 34*a[1] + 14*a[1]*a[1] >>
AltEmp(f, a) == <<>>
OpsEmp == <<"krief", "esti_VS", "han", "ehrenberg", "yu_segment_trend", "ramm_porosity", "ramm_porosity_segment",
            "empirical_StPeter", "Scherbaum", "Sclater", "Storvoll", "Hillis", "Japsen", "hjelstuen", "Cp">>
Z(lo, hi) == EX(lo, hi, <<0, 2500, 2630>>)
SigEmp0(f) ==
  CASE f = "krief" -> [SigR(<<EX("0", "0.7", <<0>>), E("10", "90"), E("5", "60")>>) EXCEPT !.far = FALSE]
    [] f = "esti_VS" -> SigR(<<E("1500", "6500"), EX("0", "1", <<0, 1>>)>>)
    [] f = "han" -> SigR(<<EX("0", "0.4", <<0>>), EX("0", "0.6", <<0>>)>>)
    [] f = "ehrenberg" -> SigR(<<Z("0", "5000")>>)
    [] f = "yu_segment_trend" -> SigR(<<Z("0", "5500")>>)
    [] f = "ramm_porosity" -> [SigR(<<Z("0", "5400"), Ch(<<TRUE, FALSE, 1, 0>>)>>) EXCEPT !.req = 1]
    [] f = "ramm_porosity_segment" -> SigR(<<Z("0", "4400")>>)
    [] f = "empirical_StPeter" -> [SigR(<<EX("0", "1", <<0>>), Ch(<<1, 2>>)>>) EXCEPT !.req = 1]
    [] f = "Scherbaum" -> SigR(<<Z("0", "5000")>>)
    [] f = "Sclater" -> SigR(<<E("0.005", "0.8")>>)
    [] f = "Storvoll" -> SigR(<<Z("0", "5000")>>)
    [] f = "Hillis" -> SigR(<<Z("0", "5500")>>)
    [] f = "Japsen" -> SigR(<<EX("0", "5299", <<0, 1393, 2000, 3500, R("1392.5"), R("5299.5")>>)>>)
    [] f = "hjelstuen" -> SigR(<<Z("0", "5000")>>)
    [] f = "Cp" -> SigR(<<EX("0", "0.7", <<0>>)>>)
\* thresholds are met exactly, so the elements need not be stable
SigEmp(f) == [SigEmp0(f) EXCEPT !.c = FALSE]
PreEmp(f, a) == TRUE
=============================================================================
