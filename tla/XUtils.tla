------------------------------- MODULE XUtils -------------------------------
(* rockphypy.utils: conversions between moduli and velocities, stiffness and *)
(* compliance matrices. *)
EXTENDS Sig

\* velocities in m/s for moduli in GPa and density in g/cm3
VelP(K, G, rho) == Sqrt((K + (4*G)/3)/rho) * 1000
VelS(G, rho)    == Sqrt(G/rho) * 1000
ModG(den, vs)      == (den * vs*vs) / 1000000
ModK(den, vp, vs)  == (den * (vp*vp - (4*vs*vs)/3)) / 1000000

\* C13 of a VTI medium from the 45 degree P velocity
VtoC(v0, v45, v90, s0, sh90, d) ==
  LET c11 == d*v90*v90   c33 == d*v0*v0   c44 == d*s0*s0   c66 == d*sh90*sh90
      \* quasi-P at 45 deg:  2*d*v45^2 = (c11+c33)/2 + c44 + sqrt(((c11-c33)/2)^2 + (c13+c44)^2)
      q   == 2*d*v45*v45 - (c11 + c33)/2 - c44
      c13 == Sqrt(q*q - Sq((c11 - c33)/2)) - c44
  IN  VTI(c11, c33, c13, c44, c66)

VtoCOk(v0, v45, v90, s0, sh90, d) ==
  LET c11 == d*v90*v90   c33 == d*v0*v0   c44 == d*s0*s0
      q   == 2*d*v45*v45 - (c11 + c33)/2 - c44
  IN  q > 0 /\ q*q - Sq((c11 - c33)/2) > R("0.01")*q*q

\* v_to_c_VTI takes the positive root of M; both signs of q give the same M
CallUtils(f, a) ==
  CASE f = "V"        -> <<VelP(a[1], a[2], a[3]), VelS(a[2], a[3])>>
    [] f = "poi"      -> <<PoiR(a[1], a[2])>>
    [] f = "lame"     -> <<Lame(a[1], a[2])>>
    [] f = "M_from_V" -> <<ModK(a[1], a[2], a[3]), ModG(a[1], a[3])>>
    [] f = "write_HTI_matrix" -> <<HTI(a[1], a[2], a[3], a[4], a[5])>>
    [] f = "write_VTI_compliance" ->
         <<Ortho(a[1], a[1], a[4], a[2], a[3], a[3], a[5], a[5], 2*(a[1]-a[2]))>>
    [] f = "write_VTI_matrix" -> <<VTI(a[1], a[2], a[3], a[4], a[5])>>
    [] f = "write_matrix" -> <<Ortho(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])>>
    [] f = "write_iso" -> <<IsoC(a[1], a[2])>>
    [] f = "crack_por" -> <<(4*Pi*a[2]*a[1])/3>>
    [] f = "v_to_c_VTI" -> <<VtoC(a[1], a[2], a[3], a[4], a[5], a[6])>>

OpsUtils == <<"V", "poi", "lame", "M_from_V", "write_HTI_matrix", "write_VTI_compliance",
              "write_VTI_matrix", "write_matrix", "write_iso", "crack_por", "v_to_c_VTI">>
SigUtils(f) ==
  CASE f = "V"        -> SigR(<<E("0.01", "120"), EX("0", "90", <<0>>), E("0.8", "4")>>)
    [] f = "poi"      -> SigR(<<E("0.5", "120"), EX("0", "90", <<0>>)>>)
    [] f = "lame"     -> SigR(<<E("0", "120"), EX("0", "90", <<0>>)>>)
    [] f = "M_from_V" -> SigR(<<E("0.2", "6"), E("1000", "9000"), EX("0", "5000", <<0>>)>>)
    [] f = "write_HTI_matrix" -> SigR(<<Sc("10", "90"), Sc("10", "90"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30")>>)
    [] f = "write_VTI_compliance" -> SigR(<<Sc("0.01", "0.3"), Sc("-0.05", "-0.001"), Sc("-0.05", "-0.001"), Sc("0.01", "0.5"), Sc("0.02", "1")>>)
    [] f = "write_VTI_matrix" -> SigR(<<Sc("10", "90"), Sc("10", "90"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30")>>)
    [] f = "write_matrix" -> SigR(<<Sc("10", "90"), Sc("10", "90"), Sc("10", "90"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30"), Sc("1", "30")>>)
    [] f = "write_iso" -> SigR(<<Sc("0.5", "120"), SX("0", "90", <<0>>)>>)
    [] f = "crack_por" -> SigR(<<EX("0", "0.5", <<0>>), EL("0.0001", "1")>>)
    [] f = "v_to_c_VTI" -> SigR(<<Sc("3", "4.2"), Sc("3.2", "5"), Sc("3.6", "5.4"), Sc("1.2", "2.3"), Sc("1.2", "2.6"), Sc("1.8", "3")>>)
PreUtils(f, a) ==
  CASE f = "v_to_c_VTI" -> VtoCOk(a[1], a[2], a[3], a[4], a[5], a[6])
    [] OTHER -> TRUE
=============================================================================
