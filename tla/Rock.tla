-------------------------------- MODULE Rock --------------------------------
(***************************************************************************)
(* The functional part of the rockphypy specification: for each public     *)
(* operation, its signature (Sig), the domain on which its result is       *)
(* specified (Pre), its result (Call) and, for the known findings, the     *)
(* result of the shipped formula (Alt).  Arguments are those of one        *)
(* element: the lifting to arrays is module Lift.                          *)
(***************************************************************************)
EXTENDS XUtils, XAniso, XAVO, XEM, XFluid, XBW, XPerm, XEmp, XGM, XQI

Call(m, f, a) ==
  CASE m = "utils" -> CallUtils(f, a)        [] m = "Anisotropy" -> CallAniso(f, a)
    [] m = "AVO" -> CallAVO(f, a)            [] m = "EM" -> CallEM(f, a)
    [] m = "Fluid" -> CallFluid(f, a)        [] m = "BW" -> CallBW(f, a)
    [] m = "Permeability" -> CallPerm(f, a)  [] m = "Empirical" -> CallEmp(f, a)
    [] m = "GM" -> CallGM(f, a)              [] m = "QI" -> CallQI(f, a)
\* << >> or << finding, result of the shipped formula >>
Alt(m, f, a) ==
  CASE m = "Anisotropy" -> AltAniso(f, a)    [] m = "AVO" -> AltAVO(f, a)
    [] m = "EM" -> AltEM(f, a)               [] m = "Fluid" -> AltFluid(f, a)
    [] m = "GM" -> AltGM(f, a)               [] OTHER -> <<>>
SigOf(m, f) ==
  CASE m = "utils" -> SigUtils(f)        [] m = "Anisotropy" -> SigAniso(f)
    [] m = "AVO" -> SigAVO(f)            [] m = "EM" -> SigEM(f)
    [] m = "Fluid" -> SigFluid(f)        [] m = "BW" -> SigBW(f)
    [] m = "Permeability" -> SigPerm(f)  [] m = "Empirical" -> SigEmp(f)
    [] m = "GM" -> SigGM(f)              [] m = "QI" -> SigQI(f)
Pre(m, f, a) ==
  CASE m = "utils" -> PreUtils(f, a)        [] m = "Anisotropy" -> PreAniso(f, a)
    [] m = "AVO" -> PreAVO(f, a)            [] m = "EM" -> PreEM(f, a)
    [] m = "Fluid" -> PreFluid(f, a)        [] m = "BW" -> PreBW(f, a)
    [] m = "Permeability" -> PrePerm(f, a)  [] m = "Empirical" -> PreEmp(f, a)
    [] m = "GM" -> PreGM(f, a)              [] m = "QI" -> PreQI(f, a)
OpsOf(m) ==
  CASE m = "utils" -> OpsUtils        [] m = "Anisotropy" -> OpsAniso
    [] m = "AVO" -> OpsAVO            [] m = "EM" -> OpsEM
    [] m = "Fluid" -> OpsFluid        [] m = "BW" -> OpsBW
    [] m = "Permeability" -> OpsPerm  [] m = "Empirical" -> OpsEmp
    [] m = "GM" -> OpsGM              [] m = "QI" -> OpsQI
=============================================================================
