------------------------------- MODULE DateGen ------------------------------
(* AMFGen with dates of all times: DATES is a file of <<day, ms of day>>.   *)
EXTENDS AMFGen, Dates
RawDates == ndJsonDeserialize(IOEnv.DATES)
WidePool == LET r == TLCEval(RawDates) IN TLCEval([i \in DOMAIN r |-> ToDouble(InstantOf(r[i][1], r[i][2]))])
AnyDate(b) == IsDateBytes(b)
More3 == <<"date", "date", "date", "date", "ref", "ref", "str", "int", "arr", "arr", "mix", "obj", "obj", "objr", "ext", "bad">>
More0 == <<"date", "date", "date", "date", "ref", "str", "num", "arr", "arr", "mix", "obj", "typ", "amf3", "amf3", "bad">>
Few3 == <<"date", "date", "null", "ref">>
Few0 == <<"date", "date", "null", "ref">>
OnlyTime == <<"time">>
=============================================================================
