------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One QI object and the methods called on it.  The state of the object is *)
(* the log it was made from; no method changes it, so that each method's   *)
(* result is the one its operation gives for that log (module XQI),        *)
(* whatever methods were called before.                                    *)
(***************************************************************************)
EXTENDS Walk
VARIABLES sid,    \* the step that made the object
          data    \* its log: <<Vp, phi, Vs, Vsh>>
svars == <<sid, data>>
Methods == 6      \* calls per object

Log(n) == LET R1(lo, hi) == [i \in 1..n |-> RandReal(R(lo), R(hi))] IN
          Force(<<R1("1400", "7000"), R1("0.05", "0.42"), R1("1200", "3200"), R1("0", "1")>>)
\* the arguments of a method with the log of the object in their place
OnLog(f, d, a) ==
  CASE f = "estimate_cem"     -> [a EXCEPT ![1] = d[1], ![2] = d[2]]
    [] f = "screening_plot"   -> [a EXCEPT ![1] = d[1], ![2] = d[2], ![3] = d[4]]
    [] f = "cement_diag_plot" -> [a EXCEPT ![1] = d[1], ![2] = d[2]]
    [] f = "kde_plot"         -> [a EXCEPT ![1] = IF a[7] = "Vp" THEN d[1] ELSE d[3], ![2] = d[2]]

SInit == Init /\ sid = 0 /\ data = <<>>
NewRec(k, d, h) == [i |-> k, m |-> "QI", f |-> "new", a |-> d, h |-> h, s |-> k]
New ==
  /\ ph = "pick" /\ calls < Burst*Methods /\ calls % Methods = 0 /\ (sid = 0 \/ cnt > 0)
  /\ data' = Log(PickOf(U, <<40, 60, 97>>))
  /\ md' = [NoMode EXCEPT !.box = PickOf(U, <<"nd", "ro", "nc", "series">>)]
  /\ Emit(OutFile, NewRec(id + 1, data', md'.box))
  /\ id' = id + 1 /\ sid' = id + 1 /\ cnt' = 0
  /\ hist' = [o \in 1..Len(Ops) |-> <<>>]
  /\ UNCHANGED <<op, ph, args, okv, tries, calls, rnd>>
Method ==
  /\ ph = "pick" /\ sid # 0 /\ (calls % Methods # 0 \/ cnt = 0) /\ calls < Burst*Methods
  /\ rnd' = Draws
  /\ op' = IF cnt > 0 /\ U < R("0.45") THEN op ELSE RandInt(1, Len(Ops))
  /\ ph' = "draw" /\ tries' = 0
  /\ UNCHANGED <<md, args, okv, hist, calls, id, cnt, sid, data>>
DrawM ==
  /\ ph = "draw"
  /\ LET m == [ModeOf(SS, [rnd EXCEPT ![1] = R("0")]) EXCEPT !.n = Len(data[1])]
         again == Known /\ rnd[23] < R("0.6") /\ tries < 12
     IN args' = Force(OnLog(FF, data,
                  \* the method with the arguments of its last call, one of them slightly changed, or all of them new
                  IF again /\ rnd[23] < R("0.1") THEN Last
                  ELSE IF again THEN Nudged(SS, Last, RandInt(1, Len(Last)), rnd[22])
                  ELSE DrawArgs(SS, m)))
  /\ ph' = "fix" /\ tries' = tries + 1
  /\ UNCHANGED <<op, md, cnt, hist, calls, id, rnd, sid, data, okv>>
FixM ==
  /\ ph = "fix"
  /\ ph' = IF Pre(MM, FF, args) THEN "emit" ELSE IF tries < 30 THEN "draw" ELSE "pick"
  /\ UNCHANGED <<op, md, args, okv, cnt, hist, calls, id, rnd, sid, data, tries>>
EmitM ==
  /\ ph = "emit"
  /\ Emit(OutFile, [i |-> id + 1, m |-> MM, f |-> FF, a |-> args, h |-> md.box, s |-> sid])
  /\ id' = id + 1 /\ calls' = calls + 1 /\ cnt' = cnt + 1 /\ ph' = "pick"
  /\ hist' = [hist EXCEPT ![op] = <<args>>]
  /\ UNCHANGED <<op, md, args, okv, tries, rnd, sid, data>>
SNext == New \/ Method \/ DrawM \/ FixM \/ EmitM
\* the object always holds the log it was made from
Unchanged == [][sid' = sid => data' = data]_svars
SSpec == SInit /\ [][SNext]_<<vars, svars>>
=============================================================================
