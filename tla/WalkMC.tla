------------------------------- MODULE WalkMC -------------------------------
EXTENDS Props, Laws, Walk
TheOps   == Force(PropOps(Prop("vprop", "ALL")))
TheBurst == PropInt("vburst", 20)
TheSpoils == Prop("vspoil", "no") = "yes"
IsMixed  == Prop("vmixed", "no") = "yes"
TheMax   == PropInt("vmaxlen", 1500)
TheParts == PropInt("vparts", 0)
TheBoxes == Force([k \in 1..Len(TheOps) |-> BoxesOf(TheOps[k])])
\* the properties hold of the specified results of every call the client makes (vlaws: the share of the calls)
LawFile == Prop("vlawfile", "/dev/null")
TheLaws == PropInt("vlaws", 0)
Lawful ==
  (ph = "emit" /\ TheLaws > 0 /\ rnd[9] < TheLaws/R("1000")) =>
    LET b == BrokenAt(MM, FF, args) IN
    \/ b = ""
    \/ /\ Emit(LawFile, [law |-> b, m |-> MM, f |-> FF, a |-> args])
       /\ Prop("vlawstop", "yes") = "no"
=============================================================================
