------------------------------ MODULE ClientGen -----------------------------
EXTENDS Client, Json, IOUtils
CONSTANTS NOps
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, s, hist, ph, sentlog
vars == <<c, s, hist, ph, sentlog>>
T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]
Vals == << <<"s", "x">>, <<"i", "1">>, <<"s", "EACUTE">>, <<"n", "None">>, <<"b", "true">>, <<"i", "-7">>,
           <<"l", <<"s", "EACUTE">>, <<"i", "300">>>>, <<"o", <<"a", <<"s", "EACUTE">>>>>>, <<"s", "">>, <<"l">> >>
Targets == <<"svc.m", "svc.m", "svc.n", "svc", "a.b.c", "m">>
Args(k) == [i \in 1..(T(k) % 4) |-> Pick(Vals, T(k + i))]
HeadNames == <<"h1", "h2", "EACUTE", "Credentials">>
HttpNames == <<"X-A", "X-B", "Referer", "Content-Type", "User-Agent">>
Codes == <<"Server.Call.Failed", "ValueError", "My.Code", "EACUTE", "TypeError", "KeyError", "LookupError", "IndexError", "NameError", "My.Code", "", "Service.ResourceNotFound">>
Ans(k) == LET r == T(k) % 8 IN
  IF r < 4 THEN <<"val", Pick(Vals, T(k + 1))>>
  ELSE IF r < 6 THEN <<"fault", Pick(Codes, T(k + 1)), Pick(<<"text", "EACUTE", "">>, T(k + 2))>>
  ELSE IF r = 6 THEN <<"bad", Pick(<<<<"s", "x">>, <<"n", "None">>, <<"i", "1">>, <<"l">>>>, T(k + 1))>>
  ELSE IF (T(k + 1) % 3) = 0 THEN <<"missing">> ELSE <<"val", <<"n", "None">>>>
\* n: how many requests are answered
Reply(k, n) ==
  [kind |-> IF (T(k) % 3) = 0 THEN Pick(<<"refuse", "hangup", "status", "ctype", "noctype", "garbage", "ok", "ok">>, T(k) \div 3) ELSE "ok",
   ans |-> [i \in 1..n |-> Ans(k + 8 + 3 * i)], turn |-> T(k + 1), stray |-> (T(k + 2) % 5) \div 2, how |-> T(k + 2),
   append |-> IF (T(k + 3) % 10) = 0 THEN Pick(<<"/a", "?x=1", "b", "/", ";s=1">>, T(k + 4)) ELSE "",
   replace |-> IF (T(k + 3) % 10) = 1 THEN Pick(<<"/r1", "/r2?y=2", "/p", "/r3/", "/r4?">>, T(k + 4)) ELSE "",
   persist |-> IF (T(k + 5) % 6) = 0
               THEN [i \in 1..(1 + (T(k + 6) % 2)) |-> [name |-> IF i = 1 THEN Pick(<<"h1", "h2", "Credentials">>, T(k + 7)) ELSE "h3", val |-> Pick(Vals, T(k + 8))]]
               ELSE <<>>]
Width == 48
\* an old header that was deleted is not appointed again by the server
Gone == UNION {IF hist[i].op = "unhead" THEN {hist[i].name} ELSE {} : i \in DOMAIN hist}
Calm(rp) == [rp EXCEPT !.persist = SelectSeq(@, LAMBDA x : x.name \notin Gone)]
\* (arguments often repeat)
Issue(k, op) == [op |-> op, target |-> Pick(Targets, T(k + 1)), args |-> IF (T(k + 7) % 3) = 0 /\ Len(s.made) > 0 THEN s.made[1 + (T(k + 2) % Len(s.made))].args ELSE Args(k + 2),
                 px |-> 1 + (T(k + 6) % 4)]
Op(k) ==
  LET Busy == (T(7) % 4) = 0
      a0 == T(k) % 26
      \* some histories queue much
      a == IF Busy /\ a0 < 16 THEN (IF a0 < 13 \/ Len(hist) < 14 THEN 8 ELSE 13) ELSE a0
      n == Len(s.made) IN
  IF a < 8 THEN Issue(k, "call") @@ [rp |-> Calm(Reply(k + 8, 1))]
  ELSE IF a < 13 THEN Issue(k, "queue")
  ELSE IF a < 16 THEN [op |-> "exec", rp |-> Calm(Reply(k + 8, Len(s.q)))]
  ELSE IF a = 16 /\ n > 0 THEN [op |-> "rmw", n |-> IF s.q # <<>> /\ (T(k + 1) % 4) # 0 THEN Pick(s.q, T(k + 2)) ELSE 1 + (T(k + 2) % n)]
  ELSE IF a = 17 /\ n > 0 THEN LET m == s.made[1 + (T(k + 1) % n)] IN
                     [op |-> "rmby", px |-> m.px, target |-> m.target, args |-> IF (T(k + 2) % 4) = 0 THEN Args(k + 3) ELSE m.args]
  ELSE IF a = 18 /\ n > 0 THEN [op |-> "get", n |-> 1 + (T(k + 1) % n)]
  ELSE IF a = 24 THEN [op |-> "adderr", cls |-> Pick(<<"MyError", "OtherError", "ValueError", "MyError", "Plain", "instance">>, T(k + 1)), code |-> Pick(Codes, T(k + 2))]
  ELSE IF a = 25 THEN LET o == [op |-> "rmerr", by |-> Pick(<<"code", "cls", "code", "cls", "other">>, T(k + 1)),
                                what |-> Pick(IF (T(k + 1) % 5) \notin {1, 3} THEN Codes ELSE <<"MyError", "OtherError", "ValueError", "KeyError", "LookupError", "LookupError">>, T(k + 2))] IN
                      \* which one goes, if a class is there twice, is not specified
                      IF o.by = "cls" /\ Cardinality({x \in DOMAIN s.errs : s.errs[x] = o.what}) > 1 THEN [o EXCEPT !.by = "other"] ELSE o
  ELSE IF a = 19 THEN [op |-> "head", name |-> Pick(HeadNames, T(k + 1)), val |-> Pick(Vals, T(k + 2)), req |-> (T(k + 3) % 2) = 0]
  ELSE IF a = 20 THEN (IF (T(k + 4) % 2) = 0 THEN [op |-> "unhead", name |-> Pick(HeadNames, T(k + 1))]
                       ELSE [op |-> "head", name |-> Pick(HeadNames, T(k + 1)), val |-> Pick(Vals, T(k + 2)), req |-> (T(k + 3) % 2) = 0])
  ELSE IF a = 21 THEN [op |-> "cred", user |-> Pick(<<"u", "EACUTE", "">>, T(k + 1)), pass |-> Pick(<<"p", "EACUTE", "">>, T(k + 2))]
  ELSE IF a = 22 THEN [op |-> "http", name |-> Pick(HttpNames, T(k + 1)), val |-> Pick(<<"v1", "v2">>, T(k + 2))]
  ELSE IF a = 23 THEN (IF (T(k + 1) % 4) = 0 THEN [op |-> "proxy"]
                       ELSE IF (T(k + 1) % 4) = 1 THEN [op |-> "version", v |-> Pick(<<0, 3>>, T(k + 2))]
                       ELSE [op |-> "unhttp", name |-> Pick(HttpNames, T(k + 2))])
  ELSE Issue(k, "queue")
Urls == <<"/p", "/p/", "/p?q=1", "/p?", "/", "/p;s=1", "/p//a">>
Setup == [v |-> Pick(<<0, 3>>, T(0)), ua |-> Pick(<<"", "agent">>, T(1)), ref |-> Pick(<<"", "", "ref">>, T(2)), strict |-> (T(3) % 3) = 0, url |-> Pick(Urls, T(4))]
\* a proxy stands for one target
Px(o) == IF o.op \in {"call", "queue"}
         THEN LET S == {i \in DOMAIN s.made : s.made[i].px = o.px} IN
              IF S = {} THEN o ELSE [o EXCEPT !.target = s.made[CHOOSE i \in S : TRUE].target]
         ELSE o
Init == /\ c \in 1..Len(Tapes) /\ hist = <<>> /\ ph = "go" /\ sentlog = <<>>
        /\ s = NewClient(Pick(<<0, 3>>, Tapes[c][1]), Pick(<<"", "agent">>, Tapes[c][2]), Pick(<<"", "", "ref">>, Tapes[c][3]), Pick(Urls, Tapes[c][5]))
Grow == /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o == Px(Op(8 + Width * Len(hist)))
               d == DoC(s, o)
               ns == IF o.op = "call" THEN <<Len(d.s.made)>> ELSE IF o.op = "exec" THEN s.q ELSE <<>>
           IN hist' = Append(hist, o) /\ s' = d.s /\ sentlog' = sentlog \o ns
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, set |-> Setup, ops |-> hist])) /\ ph' = "end" /\ UNCHANGED <<c, s, hist, sentlog>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* every request is sent once at most, and while it waits it has not been sent
Once == \A i \in DOMAIN sentlog : \A j \in DOMAIN sentlog : i # j => sentlog[i] # sentlog[j]
Waits == \A i \in DOMAIN s.q : \A j \in DOMAIN sentlog : s.q[i] # sentlog[j]
=============================================================================
