------------------------------ MODULE Explain ------------------------------
(* Writes the result expected of each recorded call (a help in reading verdicts). *)
EXTENDS Lift
VARIABLE l
Trace == LoadTrace(Prop("vtrace", "trace.ndjson"))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN Emit(Prop("vverdict", "/dev/null"), [i |-> r.i, e |-> Expected(r.m, r.f, r.a)])
        /\ l' = l + 1
=============================================================================
