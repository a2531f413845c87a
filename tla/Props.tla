------------------------------- MODULE Props -------------------------------
(* Which operations each property is about. *)
EXTENDS Rock
Pair(m, s) == [i \in 1..Len(s) |-> <<m, s[i]>>]
AllOps == Pair("utils", OpsUtils) \o Pair("Anisotropy", OpsAniso) \o Pair("AVO", OpsAVO) \o Pair("EM", OpsEM)
          \o Pair("Fluid", OpsFluid) \o Pair("BW", OpsBW) \o Pair("Permeability", OpsPerm)
          \o Pair("Empirical", OpsEmp) \o Pair("GM", OpsGM) \o Pair("QI", OpsQI)
PropOps(id) ==
  CASE id \in {"ALL", "C01"} -> AllOps
    [] id = "C02" -> SelectSeq(AllOps, LAMBDA o : LET s == SigOf(o[1], o[2]) IN
                        ~s.w /\ s.n > 1 /\ \E j \in 1..Len(s.p) : s.p[j].k \in {"e", "a"})
    [] id = "C03" -> Pair("EM", <<"VRH", "HS", "cripor", "cripor_reuss">>)
    [] id = "C04" -> Pair("Fluid", <<"Gassmann", "Gassmann_sub", "vels", "Gassmann_vels", "Gassmann_approx">>)
    [] id = "C05" -> Pair("Fluid", <<"Brown_Korringa_dry2sat", "Brown_Korringa_sat2dry", "Brown_Korringa_sub">>)
    [] id = "C06" -> Pair("utils", <<"V", "poi", "lame", "M_from_V">>)
    [] id = "C07" -> Pair("utils", <<"write_HTI_matrix", "write_VTI_compliance", "write_VTI_matrix", "write_matrix",
                                     "write_iso", "v_to_c_VTI">>) \o Pair("Anisotropy", <<"Bond_trans">>)
    [] id = "C08" -> Pair("Anisotropy", <<"Thomsen", "Thomsen_Tsvankin", "Backus", "Backus_log", "vel_azi_HTI", "vel_azi_VTI">>)
    [] id = "C09" -> Pair("EM", <<"hudson", "hudson_rand", "hudson_ortho", "hudson_cone", "Eshelby_Cheng", "Dilute_crack",
                                  "OConnell_Budiansky", "OConnell_Budiansky_fl">>) \o Pair("utils", <<"crack_por">>)
    [] id = "C10" -> Pair("EM", <<"PQ", "PQ_vectorize", "Berryman_sc", "Berryman_DEM", "Swiss_cheese", "SC", "SC_dilute",
                                  "SC_flex", "MT_average">>)
    [] id = "C11" -> Pair("GM", <<"ThomasStieber", "silty_shale", "shaly_sand", "hertzmindlin", "softsand", "Walton",
                                  "stiffsand", "Digby">>)
    [] id = "C12" -> Pair("GM", <<"contactcement", "constantcement", "MUHS", "pcm", "diluting", "vpcm">>)
    [] id = "C13" -> Pair("AVO", <<"AVO_HTI", "Aki_Richards", "zoeppritz", "AVO_abe", "AVO_ortho">>)
    [] id = "C14" -> Pair("AVO", <<"EI_ref">>)
    [] id = "C15" -> Pair("Fluid", <<"Biot", "Biot_HF", "Geertsma_Smit_HF", "Geertsma_Smit_LF", "White_Dutta_Ode">>)
    [] id = "C16" -> Pair("Fluid", <<"Mavko_Jizba", "Squirt_anisotropic">>)
    [] id = "C17" -> Pair("BW", <<"dz_dp", "pseudo_p_t", "rho_K_co2", "rho_K_gas", "rho_K_oil", "rho_K_go", "rho_K_water",
                                  "v_water", "rho_K_brine", "v_brine">>)
    [] id = "C18" -> Pair("BW", <<"co2_brine">>) \o Pair("Fluid", <<"Brie">>)
    [] id = "C19" -> Pair("Empirical", OpsEmp)
    [] id = "C20" -> Pair("Permeability", OpsPerm)
    [] id = "C21" -> Pair("QI", <<"matrix_modulus", "den_matrix", "screening", "normalize", "cst_vels", "cal_v_const">>)
    [] id = "C22" -> Pair("QI", <<"estimate_cem">>)
    [] id = "C23" -> Pair("QI", <<"cst_plot", "plot_rpt", "screening_plot", "cement_diag_plot", "kde_plot">>)
    [] id = "C24" -> Pair("GM", <<"johnson">>)
    [] OTHER -> SelectSeq(AllOps, LAMBDA o : o[1] = id \/ o[2] = id)
\* the containers other than one-dimensional arrays an operation accepts
BoxesOf(o) ==
  CASE o = <<"Fluid", "Biot">> -> <<>>                     \* one-dimensional frequencies only
    [] o = <<"Fluid", "White_Dutta_Ode">> -> <<"2d">>
    [] o[1] = "QI" -> <<"series">>
    [] OTHER -> <<"2d", "series">>
\* every operation of the library belongs to a functional property
Ids == <<"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
         "C19", "C20", "C21", "C22", "C23", "C24">>
Covered == \A i \in 1..Len(AllOps) : \E k \in 1..Len(Ids) : LET s == PropOps(Ids[k]) IN \E j \in 1..Len(s) : s[j] = AllOps[i]
ASSUME Covered
=============================================================================
