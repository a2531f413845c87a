------------------------------- MODULE XPerm -------------------------------
(* rockphypy.Permeability: permeability models. *)
EXTENDS Sig
CallPerm(f, a) ==
  CASE f = "Kozeny_Carman" -> <<(Cu(a[1])*Sq(a[2]))/(180*Sq(1 - a[1]))>>
    [] f = "Kozeny_Carman_Percolation" -> <<(a[4]*Cu(a[1] - a[2])*Sq(a[3]))/Sq(1 - (a[1] - a[2]))>>
    [] f = "Owolabi" -> <<307 + 26552*Sq(a[1]) - 34540*Sq(a[1]*a[2]),
                          R("30.7") + 2655*Sq(a[1]) - 3454*Sq(a[1]*a[2])>>
    [] f = "Perm_logs" -> LET p == a[1]  s == a[2] IN
         <<Sq((250*Cu(p))/s), (10000*p^R("4.5"))/Sq(s), Sq((100*p*p*(1 - s))/s), 352*P4(p/s)>>
    [] f = "Panda_Lake" -> LET d == a[1]  C == a[2]  S == a[3]  tau == a[4]  p == a[5] IN
         <<((Sq(d)*Cu(p))/(72*tau*Sq(1 - p))) * Sq((S*Cu(C) + 3*Sq(C) + 1)/(1 + Sq(C)))>>
    [] f = "Panda_Lake_cem" -> <<(R("3.34")*Sq(a[2])*Cu(a[1]))/Sq(1 - a[1])>>
    [] f = "Revil" -> <<(1000*Sq(a[2])*a[1]^R("4.5"))/24>>
    [] f = "Fredrich" -> LET p == a[1]  sv == (6*(1 - p))/a[2] IN <<(p/(a[3]*R("2.5")))*Sq(p/sv)>>
    [] f = "Bloch" -> <<R("-6.1") + R("9.8")/a[1] + R("0.17")*a[2],
                        10^(R("-4.67") + R("1.34")*a[3] + R("4.08")/a[1] + R("0.0342")*a[2])>>
    [] f = "Bernabe" -> <<(Sq(a[3])*a[1]*a[2])/30 + (Sq(a[4])*a[1]*(1 - a[2]))/20>>
AltPerm(f, a) == <<>>
OpsPerm == <<"Kozeny_Carman", "Kozeny_Carman_Percolation", "Owolabi", "Perm_logs", "Panda_Lake", "Panda_Lake_cem",
             "Revil", "Fredrich", "Bloch", "Bernabe">>
Por == EX("0", "0.6", <<0>>)
SigPerm(f) ==
  CASE f = "Kozeny_Carman" -> SigR(<<EX("0", "0.99", <<0>>), EL("1", "1000")>>)
    [] f = "Kozeny_Carman_Percolation" -> SigR(<<E("0.005", "0.7"), EX("0", "0.1", <<0>>), EL("1", "1000"), E("0.5", "10")>>)
    [] f = "Owolabi" -> SigR(<<Por, EX("0", "1", <<0, 1>>)>>)
    [] f = "Perm_logs" -> SigR(<<EX("0.01", "0.5", <<>>), EX("0.02", "1", <<1>>)>>)
    [] f = "Panda_Lake" -> SigR(<<EL("1", "1000"), EX("0", "1.5", <<0>>), E("-1", "3"), E("1", "4"), Por>>)
    [] f = "Panda_Lake_cem" -> SigR(<<Por, EL("1", "1000")>>)
    [] f = "Revil" -> SigR(<<Por, EL("0.001", "2")>>)
    [] f = "Fredrich" -> SigR(<<EX("0.02", "0.6", <<>>), EL("1", "1000"), E("1.5", "3")>>)
    [] f = "Bloch" -> SigR(<<E("1.05", "3"), EX("0", "100", <<0, 100>>), E("0.06", "2")>>)
    [] f = "Bernabe" -> SigR(<<Por, EX("0", "1", <<0, 1>>), EL("0.1", "50"), EL("0.1", "100")>>)
PrePerm(f, a) == TRUE
=============================================================================
