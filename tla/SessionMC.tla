------------------------------- MODULE SessionMC -------------------------------
EXTENDS Props, Session
TheOps   == LET q == Prop("vprop", "ALL") IN
            Force(Pair("QI", CASE q = "C22" -> <<"estimate_cem", "cement_diag_plot", "screening_plot">>
                               [] OTHER -> <<"estimate_cem", "screening_plot", "cement_diag_plot", "kde_plot">>))
TheBurst == PropInt("vburst", 20)
TheSpoils == Prop("vspoil", "no") = "yes"
IsMixed  == TRUE
TheMax   == PropInt("vmaxlen", 1500)
TheParts == 0
TheBoxes == Force([k \in 1..Len(TheOps) |-> <<>>])
=============================================================================
