-------------------------------- MODULE XQI --------------------------------
(* rockphypy.QI: quantitative interpretation.  Composite operations built     *)
(* from the mixing, granular, substitution and velocity operators of the      *)
(* other parts; the plotting operations are specified by the data they draw. *)
EXTENDS XGM, XFluid

HillOf(w, m) == (Dot(w, m) + 1/SumSeq([i \in 1..Len(w) |-> w[i]/m[i]]))/2
\* fractions of shale, grain and cement in the solid at porosity phi0 of a rock with critical porosity phic
SolidFr(vsh, phic, phi0) == << vsh/(1 - phi0), (1 - phic - vsh)/(1 - phi0), (phic - phi0)/(1 - phi0) >>
MatMod(vsh, phic, phi0, Msh, Mg, Mc) ==
  LET w == SolidFr(vsh, phic, phi0) IN
  IF vsh > 0 THEN HillOf(w, <<Msh, Mg, Mc>>) ELSE HillOf(<<w[2], w[3]>>, <<Mg, Mc>>)
MatDen(vsh, phic, phi0, dsh, dg, dc) == Dot(SolidFr(vsh, phic, phi0), <<dsh, dg, dc>>)
Hill2(v, a, b) == HillOf(<<v, 1 - v>>, <<a, b>>)
Vels(k, g, K0, Kf, phi, rho) == LET ks == GassK(k, K0, Kf, phi) IN << VelP(ks, g, rho), VelS(g, rho) >>

\* the three screening curves at porosity phi: soft sand, increasing cement, contact cement
\* a: the 18 arguments of QI.screening
ScreenAt(a, phi) ==
  LET Dqz == a[1]  Kqz == a[2]  Gqz == a[3]  Dsh == a[4]  Ksh == a[5]  Gsh == a[6]  Dc == a[7]  Kc == a[8]  Gc == a[9]
      Db == a[10]  Kb == a[11]  pb == a[12]  pc == a[13]  sg == a[14]  vsh == a[15]  sch == a[16]  f == a[17]  Cn == a[18]
      K0 == Hill2(vsh, Ksh, Kqz)  G0 == Hill2(vsh, Gsh, Gqz)  D0 == Dsh*vsh + Dqz*(1 - vsh)
      so == Force(SoftSpec(K0, G0, phi, pc, Cn, sg, f))
      cc == Force(ContactCem(K0, G0, Kc, Gc, phi, pc, Cn, sch))
      mu == Force(MuhsSpec(K0, G0, Kc, Gc, phi, pb, pc, Cn, sch))
      r1 == D0*(1 - phi) + Db*phi
      r3 == MatDen(vsh, pc, phi, Dsh, Dqz, Dc)*(1 - phi) + Db*phi
      v1 == Vels(so[1], so[2], K0, Kb, phi, r1)
      v2 == IF phi > pb*(1 + R("1e-12")) THEN <<NaN, NaN>> ELSE Vels(mu[1], mu[2], K0, Kb, phi, r1)
      v3 == IF phi < pb*(1 - R("1e-12")) THEN <<NaN, NaN>>
            ELSE Vels(cc[1], cc[2], MatMod(vsh, pc, phi, Ksh, Kqz, Kc), Kb, phi, r3)
  IN << phi, v1[1], v2[1], v3[1], v1[2], v2[2], v3[2] >>
PhiGrid(pc) == [i \in 1..100 |-> IF i = 100 THEN pc ELSE R("1e-7") + (i - 1)*((pc - R("1e-7"))/99)]
ScreenSpec(a) ==
  LET g == PhiGrid(a[13])  q == Force([i \in 1..100 |-> ScreenAt(a, g[i])])
  IN  [c \in 1..7 |-> [i \in 1..100 |-> q[i][c]]]

\* constant-cement line; phi_b: well-sorted end member; beyond it the line is undefined
CstAt(pb, K0, D0, G0, phi, pc, Cn, Kc, Gc, Db, Kb, sch, vsh, Dsh, Dqz, Dc) ==
  LET c == Force(ConstCem(pb, K0, G0, Kc, Gc, phi, pc, Cn, sch))
      D == MatDen(vsh, pc, pb, Dsh, Dqz, Dc)
  IN IF phi > pb THEN <<NaN, NaN>> ELSE Vels(c[1], c[2], K0, Kb, phi, D*(1 - phi) + Db*phi)
\* the velocities of a rock with cement volume phic - phib; Cn follows from the critical porosity
CpOf(p) == 20 - 34*p + 14*p*p
VConst(Dqz, Kqz, Gqz, Dsh, Ksh, Gsh, Kc, Gc, Db, Kb, pb, pc, vsh, phi, sch) ==
  LET K0 == Hill2(vsh, Ksh, Kqz)  G0 == Hill2(vsh, Gsh, Gqz)  D0 == Dsh*vsh + Dqz*(1 - vsh)
      c == Force(ConstCem(pb, K0, G0, Kc, Gc, phi, pc, CpOf(pc), sch))
  IN Vels(c[1], c[2], K0, Kb, phi, D0*(1 - phi) + Db*phi)

\* ------------------------------------------------------------- cement estimation
\* a: Vp, phi, seeds, Kqz, Gqz, Ksh, Gsh, phi_c, Cn, Kc, Gc, Db, Kb, scheme, vsh, Dsh, Dqz, Dc
CemLines(a, phi) ==
  [j \in 1..Len(a[3]) |-> VConst(a[17], a[4], a[5], a[16], a[6], a[7], a[10], a[11], a[12], a[13],
                                 a[8] - a[3][j], a[8], a[15], phi, a[14])[1]]
\* the estimate from the lines at one sample (ascending lines)
CemOf(v, L, seeds) ==
  LET n == Len(L) IN
  IF IsNaN(v) \/ IsNaN(L[1]) THEN NaN
  ELSE IF v <= L[1] THEN R("0")
  ELSE IF v >= L[n] THEN seeds[n]
  ELSE LET j == CHOOSE k \in 1..(n-1) : L[k] <= v /\ v < L[k+1]
       IN  seeds[j] + ((seeds[j+1] - seeds[j])*(v - L[j]))/(L[j+1] - L[j])
CemSpec(a) == [i \in 1..Len(a[1]) |-> CemOf(a[1][i], Force(CemLines(a, a[2][i])), a[3])]
CemOk(a) == \A i \in 1..Len(a[1]) : \A L \in {Force(CemLines(a, a[2][i]))} :
              IsNaN(L[1]) \/ IsNaN(a[1][i]) \/ \A j \in 1..(Len(L)-1) : L[j+1] > L[j] + 1

\* ------------------------------------------------------------- plots, as the data they draw
\* cst_plot: a = 19 arguments: Dqz..Kb (1-11), phib, phib_p (list), phi_c, sigma, vsh, Cn, scheme, f
CstLines(a) ==
  LET sc == <<a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[14], a[15], a[16], a[18], a[19], a[17]>>
      q == Force(ScreenSpec(sc))
      vsh == a[16]
      K0 == Hill2(vsh, a[5], a[2])  G0 == Hill2(vsh, a[6], a[3])  D0 == a[4]*vsh + a[1]*(1 - vsh)
      line(p) == [i \in 1..100 |-> CstAt(p, K0, D0, G0, q[1][i], a[14], a[17], a[8], a[9], a[10], a[11], a[18], vsh, a[4], a[1], a[7])[1]]
  IN << <<q[1], q[4]>>, <<q[1], q[2]>> >> \o [k \in 1..Len(a[13]) |-> <<q[1], line(a[13][k])>>]
\* plot_rpt: Kdry, Gdry (arrays over phi), K0, D0, Kb, Db, Khc, Dhc, phi, sw
RptAt(a, i, j) ==
  LET s == a[10][j]  phi == a[9][i]
      Kf == 1/(s/a[5] + (1 - s)/a[7])   Df == s*a[6] + (1 - s)*a[8]
      rho == a[4]*(1 - phi) + Df*phi
      v == Vels(a[1][i], a[2][i], a[3], Kf, phi, rho)
  IN << v[1]*rho, v[1]/v[2] >>
RptLines(a) ==
  LET n == Len(a[9])  m == Len(a[10])
      q == Force([i \in 1..n |-> [j \in 1..m |-> RptAt(a, i, j)]])
  IN [i \in 1..n |-> << [j \in 1..m |-> q[i][j][1]], [j \in 1..m |-> q[i][j][2]] >>]
     \o << << [i \in 1..n |-> q[i][m][1]], [i \in 1..n |-> q[i][m][2]] >> >>
\* the drawn density: normalised to a maximum of one, values below 1e-4 cleared
NormDen(d) == LET m == MaxSeq(Flat(d)) IN [i \in 1..Len(d) |-> [j \in 1..Len(d[1]) |-> d[i][j]/m]]
KdeMesh(d) ==   \* d: the raw density, indexed [phi][v]; the mesh is drawn transposed
  LET z == Force(NormDen(d)) IN
  [j \in 1..Len(d[1]) |-> [i \in 1..Len(d) |-> IF z[i][j] < R("0.0001") THEN R("0") ELSE z[i][j]]]

Ones(x) == [i \in 1..Len(x) |-> 1 - x[i]]
CallQI(f, a) ==
  CASE f = "matrix_modulus" -> <<MatMod(a[1], a[2], a[3], a[4], a[5], a[6])>>
    [] f = "den_matrix" -> <<MatDen(a[1], a[2], a[3], a[4], a[5], a[6])>>
    [] f = "screening" -> ScreenSpec(a)
    [] f = "normalize" -> <<LET m == MaxSeq(a[1]) IN [i \in 1..Len(a[1]) |-> a[1][i]/m]>>
    [] f = "cst_vels" -> CstAt(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16])
    [] f = "cal_v_const" -> VConst(a[1], a[2], a[3], a[4], a[5], a[6], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16])
    [] f = "estimate_cem" -> <<CemSpec(a)>>
    [] f = "cst_plot" -> <<CstLines(a)>>
    [] f = "plot_rpt" -> <<RptLines(a)>>
    \* instance data Vp, phi, Vsh first; then phi, vp1, vp2, vp3 of the screening curves
    [] f = "screening_plot" -> << << <<a[4], a[7]>>, <<a[4], a[5]>>, <<a[4], a[6]>> >>, <<a[2], a[1]>>, Ones(a[3]) >>
    \* instance Vp, phi; vcem; then the arguments of cst_plot
    [] f = "cement_diag_plot" -> << CstLines(SubSeq(a, 4, Len(a))), <<a[2], a[1]>>, a[3] >>
    \* instance V, phi; phi, v1, v2, v3 curves; "Vp"/"Vs"; n; the density of the external estimator
    [] f = "kde_plot" -> << << <<a[3], a[6]>>, <<a[3], a[4]>>, <<a[3], a[5]>> >>, KdeMesh(a[9]) >>
AltQI(f, a) == <<>>
OpsQI == <<"matrix_modulus", "den_matrix", "screening", "normalize", "cst_vels", "cal_v_const", "estimate_cem",
           "cst_plot", "plot_rpt", "screening_plot", "cement_diag_plot", "kde_plot">>
\* ranges shared by the composite operations
QDqz == Sc("2.2", "3.2")   QK == Sc("18", "80")    QG == Sc("12", "60")
QDsh == Sc("1.8", "2.9")    QKs == Sc("4", "50")   QGs == Sc("2", "30")
QDc == Sc("2.2", "3.2")      QKc == Sc("15", "95")   QGc == Sc("8", "60")
QDb == Sc("0.1", "1.3")    QKb == SL("0.02", "4")
QPc == SX("0.3", "0.5", <<R("0.4")>>)
QV == SX("0", "0.64", <<0>>)
QPb == Sc("0.15", "0.45")
\* ... or of the screening grid
QPbG == SX("0.15", "0.45", <<PhiGrid(R("0.4"))[70], PhiGrid(R("0.4"))[76], PhiGrid(R("0.4"))[85], R("0.3")>>)
SigQI(f) ==
  CASE f = "matrix_modulus" -> SigR(<<QV, QPc, E("0.01", "0.48"), QKs, QK, QKc>>)
    [] f = "den_matrix" -> SigR(<<QV, QPc, E("0.01", "0.48"), QDsh, QDqz, QDc>>)
    [] f = "screening" -> [SigR(<<QDqz, QK, QG, QDsh, QKs, QGs, QDc, QKc, QGc, QDb, QKb, QPbG, QPc, Sc("2", "50"), QV, Ch(<<1, 2>>), SX("0", "1", <<0, 1>>), Sc("5", "12")>>) EXCEPT !.far = FALSE, !.w = TRUE]
    [] f = "normalize" -> [SigR(<<A("-50", "50")>>) EXCEPT !.far = FALSE, !.w = TRUE]
    [] f = "cst_vels" -> [SigR(<<QPb, QK, QDqz, QG, A("0.00001", "0.48"), QPc, Sc("5", "12"), QKc, QGc, QDb, QKb, Ch(<<1, 2>>), QV, QDsh, QDqz, QDc>>) EXCEPT !.c = FALSE, !.far = FALSE]
    [] f = "cal_v_const" -> SigR(<<QDqz, QK, QG, QDsh, QKs, QGs, QDc, QKc, QGc, QDb, QKb, QPb, QPc, QV, E("0.01", "0.4"), Ch(<<1, 2>>)>>)
    [] f = "estimate_cem" -> [SigR(<<AX("1800", "6000", <<NaN>>), AX("0.1", "0.45", <<NaN>>), Par("u", R("0.0005"), R("0.16"), FALSE, <<0>>, <<>>), QK, QG, QKs, QGs, QPc, Sc("5", "12"), QKc, QGc, QDb, QKb, Ch(<<1, 2>>), QV, QDsh, QDqz, QDc>>) EXCEPT !.far = FALSE, !.w = TRUE, !.n = 100, !.t = R("1e-6")]
    [] f = "cst_plot" -> [SigR(<<QDqz, QK, QG, QDsh, QKs, QGs, QDc, QKc, QGc, QDb, QKb, QPb, Vv("0.12", "0.42"), QPc, Sc("2", "50"), QV, Sc("5", "12"), Ch(<<1, 2>>), SX("0", "1", <<0, 1>>)>>) EXCEPT !.far = FALSE, !.w = TRUE, !.vlo = 1, !.vhi = 8]
    [] f = "plot_rpt" -> [SigR(<<A("0.5", "17"), A("0.5", "30"), QK, QDqz, Sc("1.5", "4"), Sc("0.9", "1.3"), SL("0.005", "1.5"), Sc("0.01", "0.9"), A("0.02", "0.45"), VX("0", "1", <<0, 1>>)>>) EXCEPT !.far = FALSE, !.w = TRUE, !.n = 20, !.vlo = 2, !.vhi = 12]
    [] f = "screening_plot" -> [SigR(<<AX("900", "8000", <<NaN, 3000>>), AX("0.001", "0.7", <<NaN, R("0.4")>>), AX("-0.2", "1.3", <<NaN, 0, 1>>), Vv("0.01", "0.4"), Vv("2000", "5000"), Vv("2000", "5000"), Vv("2000", "5000")>>) EXCEPT !.far = FALSE, !.w = TRUE, !.n = 20, !.vlo = 3, !.vhi = 9]
    [] f = "cement_diag_plot" -> [SigR(<<AX("900", "8000", <<NaN, 3000>>), AX("0.001", "0.7", <<NaN, R("0.4")>>), AX("-0.05", "0.3", <<NaN, 0>>), QDqz, QK, QG, QDsh, QKs, QGs, QDc, QKc, QGc, QDb, QKb, QPb, Vv("0.12", "0.42"), QPc, Sc("2", "50"), QV, Sc("5", "12"), Ch(<<1, 2>>), SX("0", "1", <<0, 1>>)>>) EXCEPT !.far = FALSE, !.w = TRUE, !.n = 20, !.vlo = 1, !.vhi = 8]
    [] f = "kde_plot" -> [SigR(<<A("2000", "5000"), A("0.05", "0.4"), Vv("0.01", "0.4"), Vv("2000", "5000"), Vv("2000", "5000"), Vv("2000", "5000"), Ch(<<"Vp", "Vs">>), Ch(<<16, 32>>)>>) EXCEPT !.far = FALSE, !.w = TRUE, !.n = 330, !.nlo = 40, !.vlo = 3, !.vhi = 9]
PreQI(f, a) ==
  CASE f = "estimate_cem" -> a[15] + a[8] < 1 /\ CemOk(a)
    [] f = "matrix_modulus" -> a[1] + a[2] < 1 /\ a[3] <= a[2]
    [] f = "den_matrix" -> a[1] + a[2] < 1 /\ a[3] <= a[2]
    [] f = "screening" -> a[12] < a[13] /\ a[15] + a[13] < 1
    [] f = "cst_vels" -> a[1] < a[6] /\ a[13] + a[6] < 1
    [] f = "cal_v_const" -> a[12] < a[13] /\ a[14] + a[13] < 1 /\ a[15] <= a[12]
    [] f = "cst_plot" -> a[12] < a[14] /\ a[16] + a[14] < 1 /\ \A i \in 1..Len(a[13]) : a[13][i] < a[14]
    [] f = "cement_diag_plot" -> a[15] < a[17] /\ a[19] + a[17] < 1 /\ \A i \in 1..Len(a[16]) : a[16][i] < a[17]
    [] OTHER -> TRUE
=============================================================================
