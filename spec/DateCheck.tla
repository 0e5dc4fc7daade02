------------------------------ MODULE DateCheck -----------------------------
(* AMFCheck on observations whose dates are given by what calendar and      *)
(* clock show (see Dates.tla); tz: the offset in milliseconds.              *)
EXTENDS AMFCheck, Dates
Raw == ndJsonDeserialize(IOEnv.CASES)
OnWire(x, tz) == [i \in DOMAIN x |-> IF x[i].k = "date" THEN [x[i] EXCEPT !.b = Wire(x[i].b, tz)] ELSE x[i]]
DatedCases == [i \in DOMAIN Raw |-> [Raw[i] EXCEPT !.nd = OnWire(Raw[i].nd, Raw[i].tz)]]
AnyDate(b) == IsDateBytes(b)
=============================================================================
