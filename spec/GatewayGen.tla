----------------------------- MODULE GatewayGen ----------------------------
EXTENDS Gateway, Json, IOUtils
CONSTANTS NOps, HttpMix    \* HttpMix: malformed HTTP requests too
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, g, hist, ph
vars == <<c, g, hist, ph>>
T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]
Auths == <<"", "", "", "yes", "no", "one", "nothing", "araise", "cred", "credx">>
GAuths == <<"", "", "yes", "cred", "credx", "no", "one">>
Pres == <<"", "", "", "plog", "plogx", "praise", "pfalse">>
Exps == <<"", "", "", "yes", "no">>
Names == <<"", "", "a", "b", "a.b", "svc", "a.ok">>
\* targets: mostly what exists
AllNames == <<"echo", "fexp", "fauth", "fauthx", "fpre", "fprex", "K", "smod", "a", "b", "a.b", "svc", "a.ok", "nosuch">>
Split(n) == IF n = "a.b" THEN [pre |-> "a", last |-> "b"] ELSE IF n = "a.ok" THEN [pre |-> "a", last |-> "ok"] ELSE [pre |-> "", last |-> n]
Known(r) == LET S == {i \in DOMAIN AllNames : AllNames[i] \in DOMAIN g.svcs} IN
            IF S = {} THEN Pick(AllNames, r)
            ELSE AllNames[CHOOSE x \in S : Cardinality({y \in S : y < x}) = (r % Cardinality(S))]
Meths == <<"ok", "ok", "two", "boom", "coded", "mute", "heavy", "bytes", "authd", "authx", "pred", "prebad", "prex", "exp", "combo",
           "_priv", "__init__", "attr", "nothere", "EACUTE", "__class__", "ok", "authd", "hid", "lam">>
Target(r1, r2, r3) ==
  LET n == IF (r1 % 6) = 0 THEN Pick(AllNames, r2) ELSE Known(r2)
      d == Has(g, n) /\ g.svcs[n].s \in {1, 2, 3, 4, 5, 6, 11}
  IN IF (d /\ (r3 % 4) # 0) \/ (r3 % 8) = 1 THEN Split(n) ELSE [pre |-> n, last |-> Pick(Meths, r3 \div 8)]
Vals == << <<"s", "x">>, <<"i", "1">>, <<"i", "2">>, <<"s", "EACUTE">>, <<"s", "u">>, <<"n", "None">> >>
Args(k) == [i \in 1..(T(k) % 4) |-> Pick(Vals, T(k + i))]
Forms == <<"plain", "plain", "plain", "plain", "rpc", "rpc", "rpc", "rpc", "ping", "async", "disconnect", "login", "command",
           "object", "empty", "null", "text", "noop", "nobody", "rpc", "plain", "plain", "rpc">>
Body(k, i) ==
  LET f0 == Pick(Forms, T(k))
      f == IF HttpMix /\ (T(k + 8) % 24) = 0 THEN "response" ELSE f0
      t0 == Target(T(k + 1), T(k + 2), T(k + 3))
      t == IF t0.last = "lam" /\ (~HttpMix \/ (T(k + 8) % 3) # 0) THEN [t0 EXCEPT !.last = "ok"] ELSE t0
  IN [id |-> "/" \o ToString(1 + ((i + T(0)) % 9)), form |-> f, target |-> t,
      args |-> Args(k + 4), mid |-> Pick(<<"m1", "m2", "EACUTE">>, T(k + 8)),
      dsid |-> Pick(<<"", "nil", "D1", "D2">>, T(k + 9))]
Head_(k) == [cred |-> (CASE (T(k) % 8) \in {0, 1} -> [kind |-> "none", user |-> "None", pass |-> "None"]
                         [] (T(k) % 8) \in {2, 3, 4, 5} -> [kind |-> "ok", user |-> "u", pass |-> "p"]
                         [] (T(k) % 8) = 6 -> [kind |-> "ok", user |-> Pick(<<"u", "v", "", "EACUTE">>, T(k + 1)), pass |-> Pick(<<"q", "", "P", "p">>, T(k + 1) \div 4)]
                         [] OTHER -> [kind |-> Pick(<<"ok", "bad", "none">>, T(k + 1)), user |-> "None", pass |-> "None"]),
             describe |-> (T(k + 2) % 16) = 0]
Width == 60
Op(k) ==
  LET a == T(k) % 16 IN
  IF Len(hist) < 3 \/ a < 3
  THEN [op |-> IF (T(k + 6) % 32) = 0 THEN "scalar" ELSE "add", s |-> 1 + (T(k + 1) % 12), name |-> Pick(Names, T(k + 2)),
        auth |-> Pick(Auths, T(k + 3)), pre |-> Pick(Pres, T(k + 4)), exp |-> Pick(Exps, T(k + 5)),
        desc |-> Pick(<<"", "text">>, T(k + 6))]
  ELSE IF a = 3 THEN [op |-> "rmname", name |-> IF (T(k + 1) % 4) = 0 THEN Pick(AllNames, T(k + 2)) ELSE Known(T(k + 2))]
  ELSE IF a = 4 THEN [op |-> "rmsvc", s |-> 1 + (T(k + 1) % 12)]
  ELSE IF HttpMix /\ a \in {5, 6} THEN [op |-> "method", method |-> Pick(<<"GET", "PUT", "HEAD", "OPTIONS", "post", "DELETE">>, T(k + 1))]
  ELSE IF HttpMix /\ a \in {7, 8, 9}
  THEN [op |-> "broken", how |-> Pick(<<"cut", "cut", "version", "empty", "utf8", "type">>, T(k + 1)), at |-> T(k + 2), v |-> Pick(<<0, 3>>, T(k + 3)),
        hd |-> Head_(k + 4), xs |-> [i \in 1..(1 + (T(k + 7) % 2)) |-> Body(k + 4 + 12 * i, i)]]
  ELSE [op |-> "batch", v |-> Pick(<<0, 3>>, T(k + 1)), hd |-> Head_(k + 2), extra |-> T(k + 6) % 3,
        xs |-> [i \in 1..(T(k + 5) % 5) |-> Body(k + 6 + 11 * i, i)]]
\* an operation that is not allowed is replaced by a harmless one
OpA(k) == LET o == Op(k) IN IF AllowedG(g, o) THEN o ELSE [op |-> "rmname", name |-> "nosuch"]
GW == [auth |-> Pick(GAuths, T(1)), pre |-> Pick(Pres, T(2)), exp |-> Pick(<<"", "no", "yes">>, T(3)), debug |-> (T(4) % 3) = 0,
       kind |-> Pick(<<"wsgi", "django">>, T(5)), strict |-> (T(6) % 4) = 0]
Init == /\ c \in 1..Len(Tapes) /\ hist = <<>> /\ ph = "go"
        /\ g = New(Pick(GAuths, Tapes[c][2]), Pick(Pres, Tapes[c][3]), Pick(<<"", "no", "yes">>, Tapes[c][4]))
Grow == /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o == OpA(8 + Width * Len(hist)) IN hist' = Append(hist, o) /\ g' = DoG(g, o).g
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, gw |-> GW, ops |-> hist])) /\ ph' = "end" /\ UNCHANGED <<c, g, hist>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* the properties, for the operation at the end of the history
Rules == hist = <<>> \/ LET o == hist[Len(hist)] IN
  o.op = "batch" => /\ OnePer(g, o.hd, o.xs)
                    /\ \A i \in DOMAIN o.xs : Guarded(g, o.hd, o.xs[i])
=============================================================================
