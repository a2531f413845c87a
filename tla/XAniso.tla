------------------------------- MODULE XAniso -------------------------------
(* rockphypy.Anisotropy: weak-anisotropy parameters, Backus averaging, phase   *)
(* velocities of transversely isotropic media, rotation of stiffness matrices. *)
EXTENDS Sig

\* delta of the plane containing x3 with P moduli ca (horizontal), c33 and shear c55
DeltaOf(c33, c13, c55) == (Sq(c13 + c55) - Sq(c33 - c55)) / (2*c33*(c33 - c55))

ThomsenSpec(c11, c33, c13, c44, c66, den, theta) ==
  LET vp0 == Sqrt(c33/den)*1000   vs0 == Sqrt(c44/den)*1000
      eps == (c11 - c33)/(2*c33)  gam == (c66 - c44)/(2*c44)
      del == DeltaOf(c33, c13, c44)
      s2 == Sq(Sin(Deg(theta)))   c2 == Sq(Cos(Deg(theta)))
  IN << vp0*(1 + del*s2*c2 + eps*s2*s2),
        vs0*(1 + Sq(vp0/vs0)*(eps - del)*s2*c2),
        vs0*(1 + gam*s2), eps, gam, del >>

TsvankinSpec(c11, c22, c33, c12, c13, c23, c44, c55, c66) ==
  << (c22 - c33)/(2*c33), DeltaOf(c33, c23, c44), (c66 - c55)/(2*c55),
     (c11 - c33)/(2*c33), DeltaOf(c33, c13, c55), (c66 - c44)/(2*c44),
     DeltaOf(c11, c12, c66) >>

\* Backus average of isotropic layers with weights w (normalised here) -> c11,c33,c13,c44,c66
BackusSpec(w, la, mu) ==
  LET n == Len(w)  tot == SumSeq(w)
      Av(x) == SumSeq([i \in 1..n |-> w[i]*x[i]]) / tot
      M(i) == la[i] + 2*mu[i]
      c33 == 1/Av([i \in 1..n |-> 1/M(i)])
      r   == Av([i \in 1..n |-> la[i]/M(i)])
  IN << Av([i \in 1..n |-> M(i) - Sq(la[i])/M(i)]) + r*r*c33,
        c33, r*c33, 1/Av([i \in 1..n |-> 1/mu[i]]), Av(mu) >>

BackusLogSpec(vp, vs, den, depth) ==
  LET n  == Len(vp)
      mu == [i \in 1..n |-> den[i]*Sq(vs[i])]
      la == [i \in 1..n |-> den[i]*Sq(vp[i]) - 2*mu[i]]
      w  == [i \in 1..n |-> depth[i+1] - depth[i]]
  IN  BackusSpec(w, la, mu) \o << Dot(w, den)/SumSeq(w) >>

\* phase velocities: roots of the Christoffel determinant, in-plane pair and out-of-plane one
InPlane(Ga, x, y, den) ==
  LET s == Ga[x][x] + Ga[y][y]  d == Ga[x][x] - Ga[y][y]
      r == Sqrt(d*d + 4*Sq(Ga[x][y]))
  IN << Sqrt((s + r)/(2*den)), Sqrt((s - r)/(2*den)) >>
\* HTI medium (symmetry axis x1), propagation in the x1-x2 plane: VP, VSH (in plane), VSV (along x3)
VelHTI(C, den, az) ==
  LET t == Deg(az)  Ga == Force(Christoffel(C, <<Cos(t), Sin(t), R("0")>>))
      q == InPlane(Ga, 1, 2, den)
  IN << q[1], q[2], Sqrt(Ga[3][3]/den) >>
\* VTI medium (symmetry axis x3), propagation in the x1-x3 plane: VP, VSH (along x2), VSV (in plane)
VelVTI(C, den, az) ==
  LET t == Deg(az)  Ga == Force(Christoffel(C, <<Sin(t), R("0"), Cos(t)>>))
      q == InPlane(Ga, 1, 3, den)
  IN << q[1], Sqrt(Ga[2][2]/den), q[2] >>

\* direction cosines of the rotated frame
BondB(theta, axis) ==
  LET c == Cos(Deg(theta))  s == Sin(Deg(theta))
  IN  IF axis = 3 THEN << <<c, s, 0>>, <<-s, c, 0>>, <<0, 0, 1>> >>
      ELSE << <<1, 0, 0>>, <<0, c, -s>>, <<0, s, c>> >>
BondSpec(C, theta, axis) == Rotate(C, BondB(theta, axis))
\* as shipped: the upper right block of the Bond matrix lacks its factor 2
BondShipped(C, theta, axis) ==
  LET b == BondB(theta, axis)
      W == Force([I \in 1..6 |-> [J \in 1..6 |->
             LET i == VP[I][1]  j == VP[I][2]  p == VP[J][1]  q == VP[J][2]
             IN IF p = q \/ I <= 3 THEN b[i][p]*b[j][q]
                ELSE b[i][p]*b[j][q] + b[i][q]*b[j][p] ]])
  IN  MatMul(MatMul(W, C), Transp(W))

CallAniso(f, a) ==
  CASE f = "Thomsen" -> ThomsenSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    [] f = "Thomsen_Tsvankin" -> TsvankinSpec(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    [] f = "Backus" -> BackusSpec(a[1], a[2], a[3])
    [] f = "Backus_log" -> BackusLogSpec(a[1], a[2], a[3], a[4])
    [] f = "vel_azi_HTI" -> VelHTI(a[1], a[2], a[3])
    [] f = "vel_azi_VTI" -> VelVTI(a[1], a[2], a[3])
    [] f = "Bond_trans" -> <<BondSpec(a[1], a[2], IF Len(a) < 3 THEN 3 ELSE a[3])>>
AltAniso(f, a) ==
  CASE f = "Bond_trans" -> <<"F7", <<BondShipped(a[1], a[2], IF Len(a) < 3 THEN 3 ELSE a[3])>> >>
    [] OTHER -> <<>>

OpsAniso == <<"Thomsen", "Thomsen_Tsvankin", "Backus", "Backus_log", "vel_azi_HTI", "vel_azi_VTI", "Bond_trans">>
SigAniso(f) ==
  CASE f = "Thomsen" -> SigR(<<E("30", "120"), E("30", "80"), E("-8", "40"), E("2", "25"), E("2", "40"), E("1.5", "3.2"), EX("0", "90", <<0, 90, 45>>)>>)
    [] f = "Thomsen_Tsvankin" -> SigR(<<E("35", "120"), E("30", "120"), E("35", "80"), E("-8", "40"), E("-8", "40"), E("-8", "40"), E("2", "30"), E("2", "30"), E("2", "30")>>)
    [] f = "Backus" -> [SigR(<<Vv("0.01", "3"), Vv("0.5", "40"), VX("1", "40", <<0>>)>>) EXCEPT !.vlo = 1, !.vhi = 9, !.vb = 64, !.w = TRUE]
    [] f = "Backus_log" -> [SigR(<<Vv("2.2", "6"), VX("0.4", "1.5", <<0>>), Vv("1.5", "3"), Dp("0.1", "20")>>) EXCEPT !.vlo = 2, !.vhi = 40, !.vb = 96, !.w = TRUE]
    [] f = "vel_azi_HTI" -> [SigR(<<Mx("HTI"), Sc("1.5", "3.2"), EX("-180", "360", <<0, 45, 90, 180>>)>>) EXCEPT !.n = 100]
    [] f = "vel_azi_VTI" -> [SigR(<<Mx("VTI"), Sc("1.5", "3.2"), EX("-180", "360", <<0, 45, 90, 180>>)>>) EXCEPT !.n = 100]
    [] f = "Bond_trans" -> [SigR(<<Mx("TRI"), SX("-400", "400", <<0, 90, 180, 270, 45, -90>>), Ch(<<3, 1>>)>>) EXCEPT !.req = 2]
PreAniso(f, a) == TRUE
=============================================================================
