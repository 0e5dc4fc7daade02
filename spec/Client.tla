------------------------------- MODULE Client -------------------------------
(* The remoting client: a session with calls that are sent at once or       *)
(* queued, the headers it sends, and what the server's replies change.      *)
(*                                                                          *)
(* s = [errs (classes of fault codes), url, v, q, next, heads, http, ua, ref, proxy]: q holds the requests *)
(* that wait (their numbers; what they are is in made), heads maps names to *)
(* [val, req], http maps names to text.  Values are <<kind, text>>.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

KnownErrs == [x \in {"TypeError", "KeyError", "LookupError", "IndexError", "NameError", "ValueError", "Server.Call.Failed"} |->
              IF x = "Server.Call.Failed" THEN "RemotingCallFailed" ELSE x]
NewClient(v, ua, ref, url) ==
  [errs |-> KnownErrs, url |-> url, v |-> v, q |-> <<>>, made |-> <<>>, heads |-> [x \in {} |-> 0], http |-> [x \in {} |-> ""],
   ua |-> ua, ref |-> ref, proxy |-> FALSE]
Id(n) == "/" \o ToString(n)
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoReq == [sent |-> FALSE]
\* what arrives at the server when these requests are sent
Sent(s, ns) ==
  [sent |-> TRUE, url |-> s.url, v |-> s.v, proxied |-> s.proxy,
   heads |-> s.heads,
   bodies |-> [i \in DOMAIN ns |-> [id |-> Id(ns[i]), target |-> s.made[ns[i]].target, args |-> s.made[ns[i]].args]],
   ctype |-> "application/x-amf", ua |-> s.ua,
   ref |-> IF s.ref # "" THEN s.ref ELSE IF "Referer" \in DOMAIN s.http THEN s.http["Referer"] ELSE "",
   http |-> [k \in DOMAIN s.http \ {"Content-Type", "User-Agent", "Referer"} |-> s.http[k]]]
\* the exception for a fault code
ErrClass(errs, code) == IF code \in DOMAIN errs THEN errs[code] ELSE "RemotingError"
\* what a call gets for the answer to it: <<"val", value>>, <<"fault", code, text>>, <<"bad", value>>, <<"missing">>
OfCall(errs, a) ==
  CASE a[1] = "val" -> [err |-> "", val |-> a[2], text |-> ""]
    [] a[1] = "fault" -> [err |-> ErrClass(errs, a[2]), val |-> <<>>, text |-> a[3]]
    [] a[1] = "bad" -> [err |-> "RemotingError", val |-> <<>>, text |-> "any"]
    [] a[1] = "missing" -> [err |-> "any", val |-> <<>>, text |-> "any"]
Broken(kind) == IF kind = "garbage" THEN "any" ELSE "RemotingError"
RECURSIVE PutAll(_, _)
PutAll(h, q) == IF q = <<>> THEN h
                ELSE PutAll(Put(h, q[1].name, [val |-> q[1].val, req |-> IF q[1].name \in DOMAIN h THEN h[q[1].name].req ELSE FALSE]), Tail(q))
\* what a reply changes
After(s, rp) ==
  IF rp.kind # "ok" THEN s
  ELSE [s EXCEPT !.url = IF rp.append # "" THEN @ \o rp.append ELSE IF rp.replace # "" THEN rp.replace ELSE @,
                 !.heads = PutAll(@, rp.persist)]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
At(q, n) == IF \E i \in DOMAIN q : q[i] = n THEN CHOOSE i \in DOMAIN q : q[i] = n ELSE 0
FirstLike(s, o) == LET S == {i \in DOMAIN s.q : s.made[s.q[i]].px = o.px /\ s.made[s.q[i]].args = o.args} IN
                   IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Make(s, o) == [s EXCEPT !.made = Append(@, [target |-> o.target, args |-> o.args, px |-> o.px])]

\* [s, err, req (what is sent), call (what the call gets) or all (what each request gets)]
\* what a request that waited shows when it is told its answer
OfWait(errs, a) ==
  CASE a[1] = "val" -> <<"val", a[2]>>
    [] a[1] = "fault" -> <<"err", ErrClass(errs, a[2]), a[3]>>
    [] a[1] = "bad" -> <<"val", a[2]>>
    [] a[1] = "missing" -> <<"none">>
Ret(s, err) == [s |-> s, err |-> err, req |-> NoReq]
DoC(s, o) ==
  CASE o.op = "call" ->
         LET m == Make(s, o) n == Len(m.made) IN
         [s |-> After(m, o.rp),
          err |-> IF o.rp.kind # "ok" THEN Broken(o.rp.kind) ELSE OfCall(s.errs, o.rp.ans[1]).err,
          req |-> IF o.rp.kind = "refuse" THEN NoReq ELSE Sent(m, <<n>>)]
    [] o.op = "queue" -> LET m == Make(s, o) IN Ret([m EXCEPT !.q = Append(@, Len(m.made))], "")
    [] o.op = "exec" -> [s |-> After([s EXCEPT !.q = <<>>], o.rp),
                         err |-> IF o.rp.kind # "ok" THEN Broken(o.rp.kind) ELSE "",
                         req |-> IF o.rp.kind = "refuse" THEN NoReq ELSE Sent(s, s.q)]
    [] o.op = "rmw" -> LET i == At(s.q, o.n) IN
                       IF i = 0 THEN Ret(s, "any") ELSE Ret([s EXCEPT !.q = Without(@, i)], "")
    [] o.op = "rmby" -> LET i == FirstLike(s, o) IN
                       IF i = 0 THEN Ret(s, "LookupError") ELSE Ret([s EXCEPT !.q = Without(@, i)], "")
    [] o.op = "get" -> Ret(s, IF At(s.q, o.n) = 0 THEN "LookupError" ELSE "")
    [] o.op = "head" -> Ret([s EXCEPT !.heads = Put(@, o.name, [val |-> o.val, req |-> o.req])], "")
    [] o.op = "unhead" -> Ret([s EXCEPT !.heads = Drop(@, o.name)], IF o.name \in DOMAIN s.heads THEN "" ELSE "KeyError")
    [] o.op = "cred" -> Ret([s EXCEPT !.heads = Put(@, "Credentials", [val |-> <<"o", <<"password", <<"s", o.pass>>>>, <<"userid", <<"s", o.user>>>>>>, req |-> TRUE])], "")
    [] o.op = "http" -> Ret([s EXCEPT !.http = Put(@, o.name, o.val)], "")
    [] o.op = "unhttp" -> Ret([s EXCEPT !.http = Drop(@, o.name)], IF o.name \in DOMAIN s.http THEN "" ELSE "KeyError")
    [] o.op = "proxy" -> Ret([s EXCEPT !.proxy = TRUE], "")
    [] o.op = "adderr" -> IF o.cls \in {"Plain", "instance"} THEN Ret(s, "TypeError")
                          ELSE IF o.code \in DOMAIN s.errs THEN Ret(s, "ValueError")
                          ELSE Ret([s EXCEPT !.errs = Put(@, o.code, o.cls)], "")
    [] o.op = "rmerr" -> LET S == IF o.by = "code" THEN {k \in DOMAIN s.errs : k = o.what} ELSE {k \in DOMAIN s.errs : s.errs[k] = o.what} IN
                         IF o.by = "other" THEN Ret(s, "TypeError") ELSE IF S = {} THEN Ret(s, "ValueError")
                         ELSE Ret([s EXCEPT !.errs = Drop(@, CHOOSE k \in S : TRUE)], "")
    [] o.op = "version" -> Ret([s EXCEPT !.v = o.v], "")
=============================================================================
