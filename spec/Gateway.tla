------------------------------ MODULE Gateway ------------------------------
(* A remoting gateway: which services it has, what may be called and what   *)
(* the caller gets.                                                         *)
(*                                                                          *)
(* g = [svcs |-> names to registrations, auth, pre, exp |-> what the        *)
(*      gateway itself is configured with]                                  *)
(* A registration is [s |-> service, auth, pre, exp, desc |-> configuration *)
(* for it ("" : none)].  Services are numbered, see Methods and Direct.     *)
(* Values are <<kind, text>>.  Everything that runs in a service, an        *)
(* authenticator or a preprocessor leaves an event: <<name, ...>>.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------- what can be called
Fn(name, act, arity, auth, pre, exp) ==
  [name |-> name, act |-> act, arity |-> arity, auth |-> auth, pre |-> pre, exp |-> exp]
Plain(name, act) == Fn(name, act, -1, "", "", "")
MethodNames == {"ok", "two", "boom", "coded", "mute", "heavy", "bytes", "lam", "authd", "authx", "pred",
                "prebad", "prex", "exp", "combo", "_priv", "__init__", "attr", "nothere", "EACUTE",
                "im_func", "__class__", "hid"}
\* methods of the class K (services 7, 8 and 12)
KMethod(m) ==
  CASE m = "ok" -> Plain("ok", "echo")
    [] m = "two" -> Fn("two", "echo", 2, "", "", "")
    [] m = "boom" -> Plain("boom", "boom")
    [] m = "coded" -> Plain("coded", "coded")
    [] m = "mute" -> Plain("mute", "mute")
    [] m = "heavy" -> Plain("heavy", "heavy")
    [] m = "bytes" -> Plain("bytes", "bytes")
    [] m = "lam" -> Plain("lam", "lam")
    [] m = "authd" -> Fn("authd", "echo", -1, "cred", "", "")
    [] m = "authx" -> Fn("authx", "echo", -1, "credx", "", "")
    [] m = "pred" -> Fn("pred", "echo", -1, "", "plog", "")
    [] m = "prebad" -> Fn("prebad", "echo", -1, "", "praise", "")
    [] m = "prex" -> Fn("prex", "echo", -1, "", "plogx", "")
    [] m = "exp" -> Fn("exp", "echo", -1, "", "", "yes")
    [] m = "combo" -> Fn("combo", "echo", -1, "credx", "plogx", "yes")
    [] OTHER -> Plain("", "none")
KNames == {"ok", "two", "boom", "coded", "mute", "heavy", "bytes", "lam", "authd", "authx", "pred", "prebad", "prex", "exp", "combo"}
NoFn == Plain("", "none")
\* called by its own name
Direct(s) ==
  CASE s = 1 -> Plain("echo", "echo")
    [] s = 2 -> Fn("fexp", "echo", -1, "", "", "yes")
    [] s = 3 -> Fn("fauth", "echo", -1, "cred", "", "")
    [] s = 4 -> Fn("fauthx", "echo", 2, "credx", "", "")
    [] s = 5 -> Fn("fpre", "echo", -1, "", "praise", "")
    [] s = 6 -> Fn("fprex", "boom", -1, "", "plogx", "")
    [] s = 11 -> Plain("call", "echo")
    [] OTHER -> NoFn
\* <<what it is, callable>>
Method(s, m) ==
  IF s \in {7, 8, 12} THEN (IF m \in KNames THEN <<"fn", KMethod(m)>> ELSE IF m = "attr" THEN <<"noncall", NoFn>> ELSE <<"none", NoFn>>)
  ELSE IF s = 9 THEN (IF m = "ok" THEN <<"fn", Plain("iok", "echo")>>
                      ELSE IF m = "attr" THEN <<"noncall", NoFn>> ELSE <<"none", NoFn>>)
  ELSE IF s = 10 THEN (IF m = "ok" THEN <<"fn", Plain("mok", "echo")>>
                       ELSE IF m = "authd" THEN <<"fn", Fn("mauthd", "echo", -1, "cred", "", "")>>
                       ELSE IF m = "attr" THEN <<"noncall", NoFn>> ELSE <<"none", NoFn>>)
  ELSE IF s = 11 THEN (IF m = "ok" THEN <<"fn", Plain("cok", "coded")>> ELSE <<"none", NoFn>>)
  ELSE <<"none", NoFn>>
Private(m) == m \in {"_priv", "__init__", "__class__"}
Services == 1..12
\* the name a service gets if none is given ("" : any)
OwnName(s) == CASE s = 1 -> "echo" [] s = 2 -> "fexp" [] s = 3 -> "fauth" [] s = 4 -> "fauthx" [] s = 5 -> "fpre"
                [] s = 6 -> "fprex" [] s = 7 -> "K" [] s = 10 -> "smod" [] OTHER -> ""

\* what happens when a callable runs with n arguments
Outcome(f, n) ==
  IF f.arity >= 0 /\ f.arity # n THEN "TypeError"
  ELSE CASE f.act = "boom" -> "ValueError" [] f.act = "coded" -> "My.Code" [] f.act = "mute" -> "Mute"
         [] f.act = "heavy" -> "Heavy" [] f.act = "bytes" -> "KeyError" [] OTHER -> ""

\* authenticators: what they say about a user and password
Exposed(x) == x \in {"credx", "plogx"}
Allows(a, user, pass) ==
  CASE a = "yes" -> "true" [] a = "no" -> "false" [] a = "one" -> "other" [] a = "nothing" -> "other"
    [] a = "araise" -> "raise" [] a \in {"cred", "credx"} -> IF user = "u" /\ pass = "p" THEN "true" ELSE "false"

\* -------------------------------------------------------------- one call
\* r: [target |-> [pre, last], args, ...]; cr: [kind, user, pass]
\* result: [ev |-> events, err |-> fault code ("" none), ret |-> value]
First(a, b, c) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE c
Full(t) == IF t.pre = "" THEN t.last ELSE t.pre \o "." \o t.last
Has(g, n) == n \in DOMAIN g.svcs
Http(x, t) == IF x THEN << <<"http", t>> >> ELSE <<>>
Result(ev, err, ret) == [ev |-> ev, err |-> err, ret |-> ret]
Call(g, t, args, cr, htarget, describe, nobody) ==
  LET n == Full(t)
      direct == Has(g, n)
      reg == IF direct THEN g.svcs[n] ELSE g.svcs[t.pre]
      m == IF direct THEN <<"direct", Direct(reg.s)>> ELSE Method(reg.s, t.last)
      f == m[2]
      auth == First(f.auth, reg.auth, g.auth)
      pre == First(f.pre, reg.pre, g.pre)
      exp == First(f.exp, reg.exp, g.exp) = "yes"
      ev1 == IF auth = "" THEN <<>>
             ELSE << <<auth>> \o (IF Exposed(auth) THEN <<htarget>> ELSE <<>>) \o <<cr.user, cr.pass>> >>
      says == IF auth = "" THEN "true" ELSE Allows(auth, cr.user, cr.pass)
      ev2 == ev1 \o (IF pre = "" THEN <<>> ELSE << <<pre>> \o (IF Exposed(pre) THEN <<htarget>> ELSE <<>>) >>)
      full == Http(exp, htarget) \o args
      ran == ev2 \o << <<f.name>> \o [i \in DOMAIN full |-> full[i][2]] >>
      out == Outcome(f, Len(full))
  IN
  IF ~direct /\ ~Has(g, t.pre) THEN Result(<<>>, "Service.ResourceNotFound", <<>>)
  ELSE IF cr.kind = "bad" THEN Result(<<>>, "any", <<>>)
  ELSE IF says = "raise" THEN Result(ev1, "ValueError", <<>>)
  ELSE IF says # "true" THEN Result(ev1, "AuthenticationError", <<>>)
  ELSE IF nobody THEN Result(ev1, "any", <<>>)
  ELSE IF pre = "praise" THEN Result(ev2, "LookupError", <<>>)
  ELSE IF describe THEN Result(ev2, "", IF reg.desc = "" THEN <<"n", "None">> ELSE <<"s", reg.desc>>)
  ELSE IF ~direct /\ Private(t.last) THEN Result(ev2, "Service.MethodInvalid", <<>>)
  ELSE IF m[1] = "noncall" THEN Result(ev2, "Service.MethodInvalid", <<>>)
  ELSE IF f.act = "none" THEN Result(ev2, "Service.MethodNotFound", <<>>)
  ELSE IF out = "TypeError" THEN Result(ev2, "TypeError", <<>>)
  ELSE IF out # "" THEN Result(ran, out, <<>>)
  ELSE IF f.act = "lam" THEN Result(ran, "", <<"unsendable">>)
  ELSE Result(ran, "", <<"l">> \o args)

\* ------------------------------------------------------------ one request
\* bodies: plain requests, RemoteObject messages, and what is no request
Answer(g, x, hd) ==
  LET cr == hd.cred IN
  CASE x.form = "plain" -> Call(g, x.target, x.args, cr, Full(x.target), hd.describe, FALSE)
    [] x.form \in {"rpc", "nobody"} -> Call(g, x.target, x.args, cr, "null", FALSE, x.form = "nobody")
    [] x.form = "ping" -> Result(<<>>, "", <<"b", "true">>)
    [] x.form = "async" -> Result(<<>>, "", <<"b", "true">>)
    [] x.form = "disconnect" -> Result(<<>>, "", <<"n", "None">>)
    [] x.form \in {"login", "command"} -> Result(<<>>, "Server.Call.Failed", <<>>)
    [] x.form \in {"object", "empty", "null", "text"} -> Result(<<>>, "Server.Call.Failed", <<>>)
    [] x.form = "noop" -> Result(<<>>, "any", <<>>)
    [] x.form = "response" -> Result(<<>>, "fatal", <<>>)
IsRo(x) == x.form \notin {"plain", "response"}
\* the answers to a whole message: up to the first that spoils everything
RECURSIVE Batch(_, _, _)
Batch(g, hd, xs) ==
  IF xs = <<>> THEN [ev |-> <<>>, rs |-> <<>>, fatal |-> FALSE]
  ELSE LET a == Answer(g, Head(xs), hd)
           b == Batch(g, hd, Tail(xs)) IN
       IF a.err = "fatal" THEN [ev |-> <<>>, rs |-> <<>>, fatal |-> TRUE]
       ELSE [ev |-> a.ev \o b.ev, rs |-> <<a>> \o b.rs, fatal |-> b.fatal \/ a.ret = <<"unsendable">>]

\* -------------------------------------------------------------- operations
New(auth, pre, exp) == [svcs |-> [x \in {} |-> 0], auth |-> auth, pre |-> pre, exp |-> exp]
Res(g, err) == [g |-> g, err |-> err]
NameOf(o) == IF o.name = "" THEN OwnName(o.s) ELSE o.name
DoG(g, o) ==
  CASE o.op = "add" ->
         IF Has(g, NameOf(o)) THEN Res(g, "RemotingError")
         ELSE Res([g EXCEPT !.svcs = (NameOf(o) :> [s |-> o.s, auth |-> o.auth, pre |-> o.pre, exp |-> o.exp, desc |-> o.desc]) @@ @], "")
    [] o.op = "scalar" -> Res(g, "TypeError")
    [] o.op = "rmname" -> IF Has(g, o.name) THEN Res([g EXCEPT !.svcs = [k \in DOMAIN @ \ {o.name} |-> @[k]]], "") ELSE Res(g, "NameError")
    [] o.op = "rmsvc" -> LET N == {k \in DOMAIN g.svcs : g.svcs[k].s = o.s} IN
         IF N = {} THEN Res(g, "NameError")
         ELSE Res([g EXCEPT !.svcs = [k \in DOMAIN @ \ N |-> @[k]]], "")
    [] OTHER -> Res(g, "")
\* a service has one name
AllowedG(g, o) == o.op = "add" =>
  /\ NameOf(o) # ""
  /\ (\A k \in DOMAIN g.svcs : g.svcs[k].s = o.s => k = NameOf(o))

\* -------------------------------------------------------------- properties
\* nothing but what is exposed runs, and only if everything allows it
Runs(ev, names) == \E i \in DOMAIN ev : ev[i][1] \in names
SvcFns == KNames \cup {"echo", "fexp", "fauth", "fauthx", "fpre", "fprex", "call", "iok", "mok", "mauthd", "cok"}
Guarded(g, hd, x) ==
  LET a == Answer(g, x, hd)
      ran == Runs(a.ev, SvcFns)
      t == x.target
      reg == IF Has(g, Full(t)) THEN g.svcs[Full(t)] ELSE g.svcs[t.pre]
      f == IF Has(g, Full(t)) THEN Direct(reg.s) ELSE Method(reg.s, t.last)[2]
      force == First(f.auth, reg.auth, g.auth)
  IN ran => /\ x.form = "rpc" \/ (x.form = "plain" /\ ~hd.describe)
            /\ Has(g, Full(t)) \/ (Has(g, t.pre) /\ ~Private(t.last))
            /\ (force # "") => (a.ev[1][1] = force /\ Allows(force, hd.cred.user, hd.cred.pass) = "true")
            /\ First(f.pre, reg.pre, g.pre) # "praise"
\* each request has its answer, whatever the others are
OnePer(g, hd, xs) == LET b == Batch(g, hd, xs) IN
  (~b.fatal) => /\ Len(b.rs) = Len(xs)
                /\ \A i \in DOMAIN xs : b.rs[i] = Answer(g, xs[i], hd)
=============================================================================
