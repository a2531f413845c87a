-------------------------------- MODULE XBW --------------------------------
(* rockphypy.BW: Batzle-Wang fluid properties and CO2-brine mixtures. *)
EXTENDS Sig
LOCAL BrieMix(Kw, Kg, Sw, e) == Kg + (Kw - Kg)*Sw^e

\* exponent of the gas compressibility correction
GasX(p, t) == (R("0.45") + 8*Sq(R("0.56") - 1/t)) / t
GasA(t)    == R("0.109")*Sq(R("3.85") - t)
GasZ(p, t) == (R("0.03") + R("0.00527")*Cu(R("3.5") - t))*p
              + (R("0.642")*t - R("0.007")*P4(t) - R("0.52")) + GasA(t)*Exp(-GasX(p, t)*p^R("1.2"))
\* the derivative of GasZ in p
GasDz(p, t) == R("0.03") + R("0.00527")*Cu(R("3.5") - t)
               - GasA(t)*GasX(p, t)*R("1.2")*p^R("0.2")*Exp(-GasX(p, t)*p^R("1.2"))
GasGam(p) == R("0.85") + R("5.6")/(p + 2) + R("27.1")/Sq(p + R("3.5")) - R("8.7")*Exp(-R("0.65")*(p + 1))
\* density and modulus of a gas of gravity G at P MPa and absolute temperature Ta
GasRK(P, Ta, G, p, t) ==
  LET z == GasZ(p, t) IN
  << (R("28.8")*G*P)/(z*R("8.3145")*Ta), ((P*GasGam(p))/(1 - (p*GasDz(p, t))/z))/1000 >>
PseudoPT(P, T, G) ==
  << T + R("273.15"), P/(R("4.892") - R("0.4048")*G), (T + R("273.15"))/(R("94.72") + R("170.75")*G) >>
GasSpec(P, T, G) == LET q == PseudoPT(P, T, G) IN GasRK(P, q[1], G, q[2], q[3])
CO2Spec(P, T, G) ==
  LET Ta == T + R("273.15") IN GasRK(P, Ta, G, P/R("7.4"), Ta/(R("31.1") + R("273.5")))

OilV(d, P, T) == 2096*Sqrt(d/(R("2.6") - d)) - R("3.7")*T + R("4.64")*P
                 + R("0.0115")*(R("4.12")*Sqrt(R("1.08")/d - 1) - 1)*T*P
OilSpec(P, T, d0) ==
  LET rp == d0 + (R("0.00277")*P - R("1.71e-7")*Cu(P))*Sq(d0 - R("1.15")) + R("3.49e-4")*P
      r  == rp/(R("0.972") + R("3.81e-4")*(T + R("17.78"))^R("1.175"))
  IN << r, (r*Sq(OilV(d0, P, T)))/1000000 >>
LiveOil(P, T, d0, G, Rg0) ==
  LET Rg == IF KindOf(Rg0) = "str" THEN R("0.02123")*G*(P*Exp(R("4.072")/d0 - R("0.00377")*T))^R("1.205") ELSE Rg0
      B  == R("0.972") + R("0.00038")*(R("2.4")*Rg*Sqrt(G/d0) + T + R("17.8"))^R("1.175")
      dp == d0/(B*(1 + Rg/1000))
      dg == (d0 + R("0.0012")*G*Rg)/B
  IN << dg, (dg*Sq(OilV(dp, P, T)))/1000000 >>

WC == << << R("1402.85"), R("1.524"), R("3.437e-3"), R("-1.197e-5") >>,
         << R("4.871"), R("-0.0111"), R("1.739e-4"), R("-1.628e-6") >>,
         << R("-0.04783"), R("2.747e-4"), R("-2.135e-6"), R("1.237e-8") >>,
         << R("1.487e-4"), R("-6.503e-7"), R("-1.455e-8"), R("1.327e-10") >>,
         << R("-2.197e-7"), R("7.987e-10"), R("5.230e-11"), R("-4.614e-13") >> >>
WaterV(T, P) ==
  LET row(i) == WC[i][1] + P*(WC[i][2] + P*(WC[i][3] + P*WC[i][4]))
  IN  row(1) + T*(row(2) + T*(row(3) + T*(row(4) + T*row(5))))
WaterD(T, P) ==
  1 + R("1e-6")*(-80*T - R("3.3")*T*T + R("0.00175")*Cu(T) + 489*P - 2*T*P + R("0.016")*T*T*P
                 - R("1.3e-5")*Cu(T)*P - R("0.333")*P*P - R("0.002")*T*P*P)
WaterSpec(T, P) == LET r == WaterD(T, P) IN << r, (r*Sq(WaterV(T, P)))/1000000 >>
BrineV(T, P, S) ==
  WaterV(T, P) + S*(1170 - R("9.6")*T + R("0.055")*T*T - R("8.5e-5")*Cu(T) + R("2.6")*P - R("0.0029")*T*P - R("0.0476")*P*P)
  + S*Sqrt(S)*(780 - 10*P + R("0.16")*P*P) - 820*S*S
BrineSpec(T, P, S) ==
  LET r == WaterD(T, P) + S*(R("0.668") + R("0.44")*S + R("1e-6")*(300*P - 2400*P*S
                                 + T*(80 + 3*T - 3300*S - 13*P + 47*P*S)))
  IN << r, (r*Sq(BrineV(T, P, S)))/1000000 >>
MixSpec(T, P, S, x, e, bw) ==
  LET g == IF bw THEN GasSpec(P, T, R("1.5349")) ELSE CO2Spec(P, T, R("1.5349"))
      b == BrineSpec(T, P, S)
  IN << (1 - x)*b[1] + x*g[1],
        IF KindOf(e) = "str" THEN 1/((1 - x)/b[2] + x/g[2]) ELSE BrieMix(b[2], g[2], 1 - x, e) >>

CallBW(f, a) ==
  CASE f = "dz_dp" -> <<GasDz(a[1], a[2])>>
    [] f = "pseudo_p_t" -> PseudoPT(a[1], a[2], a[3])
    [] f = "rho_K_co2" -> CO2Spec(a[1], a[2], a[3])
    [] f = "rho_K_gas" -> GasSpec(a[1], a[2], a[3])
    [] f = "rho_K_oil" -> OilSpec(a[1], a[2], a[3])
    [] f = "rho_K_go" -> LiveOil(a[1], a[2], a[3], a[4], a[5])
    [] f = "rho_K_water" -> WaterSpec(a[1], a[2])
    [] f = "v_water" -> <<WaterV(a[1], a[2])>>
    [] f = "rho_K_brine" -> BrineSpec(a[1], a[2], a[3])
    [] f = "v_brine" -> <<BrineV(a[1], a[2], a[3])>>
    [] f = "co2_brine" -> MixSpec(a[1], a[2], a[3], a[4], IF Len(a) < 5 THEN None ELSE a[5], IF Len(a) < 6 THEN FALSE ELSE a[6])
AltBW(f, a) == <<>>
OpsBW == <<"dz_dp", "pseudo_p_t", "rho_K_co2", "rho_K_gas", "rho_K_oil", "rho_K_go", "rho_K_water", "v_water",
           "rho_K_brine", "v_brine", "co2_brine">>
Tc == EX("0", "200", <<0, 20, 100>>)
Pm == EX("0.05", "120", <<1, 40>>)
SigBW(f) ==
  CASE f = "dz_dp" -> SigR(<<E("0.02", "20"), E("0.95", "3.5")>>)
    [] f = "pseudo_p_t" -> SigR(<<Pm, Tc, E("0.55", "1.6")>>)
    [] f = "rho_K_co2" -> SigR(<<E("0.1", "80"), E("5", "200"), E("1.45", "1.6")>>)
    [] f = "rho_K_gas" -> SigR(<<E("0.1", "80"), E("5", "200"), E("0.55", "1.6")>>)
    [] f = "rho_K_oil" -> SigR(<<Pm, Tc, EX("0.65", "1.05", <<R("0.8"), 1>>)>>)
    [] f = "rho_K_go" -> SigR(<<E("0.1", "80"), E("5", "200"), E("0.65", "1.02"), E("0.55", "1.6"), Ch(<<None, None, 0, 1, R("0.4"), 17, 50, 120, R("210.5"), 330>>)>>)
    [] f = "rho_K_water" -> SigR(<<Tc, Pm>>)
    [] f = "v_water" -> SigR(<<Tc, Pm>>)
    [] f = "rho_K_brine" -> SigR(<<Tc, Pm, EX("0", "0.4", <<0>>)>>)
    [] f = "v_brine" -> SigR(<<Tc, Pm, EX("0", "0.4", <<0>>)>>)
    [] f = "co2_brine" -> [SigR(<<E("10", "180"), E("0.2", "80"), EX("0", "0.4", <<0>>), EX("0", "1", <<0, 1>>), Ch(<<None, None, 1, 2, 3, R("2.5"), 5, 12, 40, R("0.5"), R("0.1"), 0>>), Ch(<<FALSE, TRUE>>)>>) EXCEPT !.req = 4]
PreBW(f, a) ==
  CASE f = "co2_brine" -> ~(Len(a) > 4 /\ a[4] = 1 /\ KindOf(a[5]) = "num" /\ a[5] = 0)
    [] OTHER -> TRUE
=============================================================================
