------------------------------- MODULE MathK -------------------------------
(***************************************************************************)
(* Mathematics used by several parts of the rockphypy specification:       *)
(* complex numbers as pairs <<re, im>>, small matrices as sequences of     *)
(* rows, elastic tensors in Voigt notation, and the two-phase mixing rule  *)
(* from which all the bounds are built.                                    *)
(***************************************************************************)
EXTENDS RealK, Sequences, FoldK

Half == 1/2
Third == 1/3
Sq(x) == x*x
Cu(x) == x*x*x
P4(x) == x*x*x*x
Deg(t) == (t * Pi) / 180
Seq1(n) == [i \in 1..n |-> i]

\* ------------------------------------------------------------- complex
CC(x)      == <<x, R("0")>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
CSc(s, y)  == <<s*y[1], s*y[2]>>
CAbs2(x)   == x[1]*x[1] + x[2]*x[2]
CAbs(x)    == Sqrt(CAbs2(x))
CDiv(x, y) == LET d == CAbs2(y) IN
              <<(x[1]*y[1] + x[2]*y[2]) / d, (x[2]*y[1] - x[1]*y[2]) / d>>
CInv(x)    == CDiv(<<R("1"), R("0")>>, x)
CExp(x)    == LET e == Exp(x[1]) IN <<e*Cos(x[2]), e*Sin(x[2])>>
\* principal square root (real part >= 0)
CSqrt(x)   == LET m == CAbs(x)
                  re == Sqrt(MaxR((m + x[1])/2, 0))
                  im == Sqrt(MaxR((m - x[1])/2, 0))
              IN <<re, IF x[2] < 0 THEN -im ELSE im>>

\* ------------------------------------------------------------- vectors, matrices
Dot(u, v)  == SumSeq([i \in 1..Len(u) |-> u[i]*v[i]])
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                    SumSeq([k \in 1..Len(B) |-> A[i][k]*B[k][j]])]]
Transp(A)  == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Eye(n)     == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MatAdd(A, B, s) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][j] + s*B[i][j]]]

\* Gauss-Jordan with partial pivoting: the inverse of a square matrix
MatInv(A0) ==
  LET n == Len(A0)
      aug == Force([i \in 1..n |-> [j \in 1..2*n |->
               IF j <= n THEN ToReal(A0[i][j]) ELSE IF j = n + i THEN R("1") ELSE R("0")]])
      Elim(A, c) ==
        LET p == CHOOSE r \in c..n : \A q \in c..n : ~(Abs(A[r][c]) < Abs(A[q][c]))
            S == [i \in 1..n |-> IF i = c THEN A[p] ELSE IF i = p THEN A[c] ELSE A[i]]
            rowc == Force([j \in 1..2*n |-> S[c][j] / S[c][c]])
        IN  Force([i \in 1..n |-> IF i = c THEN rowc
                    ELSE LET m == S[i][c] IN [j \in 1..2*n |-> S[i][j] - m*rowc[j]]])
      R1 == FoldL(Elim, aug, Seq1(n))
  IN  [i \in 1..n |-> [j \in 1..n |-> R1[i][n + j]]]

\* ------------------------------------------------------------- elasticity
Lame(K, G)  == K - (2*G)/3
Pmod(K, G)  == K + (4*G)/3
PoiR(K, G)  == LET la == K - (2*G)/3 IN la / (2*(la + G))

\* Voigt index of a tensor index pair
VI(i, j) == IF i = j THEN i ELSE 9 - i - j
\* the orthotropic 6x6 stiffness with the given nine entries
Ortho(c11, c22, c33, c12, c13, c23, c44, c55, c66) ==
  << <<c11, c12, c13, 0, 0, 0>>, <<c12, c22, c23, 0, 0, 0>>, <<c13, c23, c33, 0, 0, 0>>,
     <<0, 0, 0, c44, 0, 0>>, <<0, 0, 0, 0, c55, 0>>, <<0, 0, 0, 0, 0, c66>> >>
VTI(c11, c33, c13, c44, c66) == Ortho(c11, c11, c33, c11 - 2*c66, c13, c13, c44, c44, c66)
\* symmetry axis x1: c22 = c33, c12 = c13, c55 = c66, c23 = c33 - 2 c44
HTI(c11, c33, c13, c44, c55) == Ortho(c11, c33, c33, c13, c13, c33 - 2*c44, c44, c55, c55)
IsoC(K, G) == LET l == Lame(K, G) IN Ortho(l+2*G, l+2*G, l+2*G, l, l, l, G, G, G)

\* the rotated stiffness c'_ijkl = b_ip b_jq b_kr b_ls c_pqrs, as a 6x6 matrix
VP == << <<1,1>>, <<2,2>>, <<3,3>>, <<2,3>>, <<1,3>>, <<1,2>> >>
Rotate(C, b) ==
  LET \* contract the two pairs separately: w[I][pq] = b_ip b_jq symmetrised over p,q
      W == Force([I \in 1..6 |-> [J \in 1..6 |->
             LET i == VP[I][1]  j == VP[I][2]  p == VP[J][1]  q == VP[J][2]
             IN IF p = q THEN b[i][p]*b[j][p]
                ELSE b[i][p]*b[j][q] + b[i][q]*b[j][p] ]])
  IN  MatMul(MatMul(W, C), Transp(W))

\* Christoffel matrix of a 6x6 stiffness for propagation direction n
Christoffel(C, n) ==
  [i \in 1..3 |-> [k \in 1..3 |->
     SumSeq([m \in 1..9 |-> LET j == ((m-1) \div 3) + 1  l == ((m-1) % 3) + 1
                            IN C[VI(i,j)][VI(k,l)] * n[j] * n[l]]) ]]

\* positive definiteness of a symmetric 6x6 matrix through its leading minors (by elimination)
LeadPivots(A0) ==
  LET n == Len(A0)
      Step(s, c) ==
        LET A == s[1] IN
        << Force([i \in 1..n |-> [j \in 1..n |->
              IF i <= c THEN A[i][j] ELSE A[i][j] - (A[i][c]*A[c][j])/A[c][c]]]),
           Append(s[2], A[c][c]) >>
  IN  FoldL(Step, <<A0, <<>> >>, Seq1(n))[2]
PosDef(A) == \A x \in {LeadPivots(A)} : \A i \in 1..Len(x) : x[i] > 0

\* ------------------------------------------------------------- mixing
\* the generalised Hashin-Shtrikman / modified bound: (sum f_i/(M_i + z))^-1 - z
Mix(f, Ma, Mb, z) == 1 / (f/(Ma + z) + (1 - f)/(Mb + z)) - z
ZetaG(K, G) == ((G/6) * (9*K + 8*G))/(K + 2*G)
\* two-phase bound at fraction f of phase (Ka,Ga), with stiffness (Kz,Gz) of the connecting phase
MixK(f, Ka, Ga, Kb, Gb, Kz, Gz) == Mix(f, Ka, Kb, (4*Gz)/3)
MixG(f, Ka, Ga, Kb, Gb, Kz, Gz) == Mix(f, Ga, Gb, ZetaG(Kz, Gz))

\* ------------------------------------------------------------- root of a monotone function
\* bisection on [lo, hi] for an increasing F with F(lo) <= 0 <= F(hi)
Bisect(F(_), lo, hi, n) ==
  FoldL(LAMBDA s, i : LET m == (s[1] + s[2])/2 IN IF F(m) < 0 THEN <<m, s[2]>> ELSE <<s[1], m>>,
        <<lo, hi>>, Seq1(n))[1]
=============================================================================
