-------------------------------- MODULE Flex --------------------------------
(* Flex: collections and proxies behave as the list or object they wrap,     *)
(* with proxies enabled every list and anonymous object is sent wrapped, and *)
(* messages have a compact form.                                             *)
EXTENDS AMF

AnyDate(b) == Len(b) = 8
None == <<"null">>
Err(e) == <<"err", e>>

\* -------------------------------------------------------------- collections
\* q: the items; Coll(q, o) = <<items afterwards, result>>
InsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
IndexOf(q, x) == IF \E i \in DOMAIN q : q[i] = x
                 THEN (CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in DOMAIN q : q[j] = x => i <= j) - 1 ELSE -1
In0(q, i) == i >= 0 /\ i < Len(q)
Coll(q, o) ==
  CASE o.op = "new" -> IF o.src = "dict" THEN <<q, Err("TypeError")>>
                       ELSE IF o.src \in {"none", "number"} THEN <<<<>>, None>> ELSE <<o.q, None>>
    [] o.op = "addItem" -> <<Append(q, o.x), None>>
    [] o.op = "addItemAt" -> IF o.i < 0 \/ o.i > Len(q) THEN <<q, Err("IndexError")>> ELSE <<InsertAt(q, o.i, o.x), None>>
    [] o.op = "getItemAt" -> IF In0(q, o.i) THEN <<q, q[o.i + 1]>> ELSE <<q, Err("IndexError")>>
    [] o.op = "getItemIndex" -> <<q, <<"int", IndexOf(q, o.x)>>>>
    [] o.op = "removeAll" -> <<<<>>, None>>
    [] o.op = "removeItemAt" -> IF In0(q, o.i) THEN <<RemoveAt(q, o.i), q[o.i + 1]>> ELSE <<q, Err("IndexError")>>
    [] o.op = "setItemAt" -> IF In0(q, o.i) THEN <<[q EXCEPT ![o.i + 1] = o.x], q[o.i + 1]>> ELSE <<q, Err("IndexError")>>
    [] o.op = "toArray" -> <<q, <<"all", q>>>>
    [] o.op = "list" -> <<q, <<"all", q>>>>
    [] o.op = "length" -> <<q, <<"int", Len(q)>>>>
    [] o.op = "setLength" -> <<q, Err("AttributeError")>>
    [] o.op = "append" -> <<Append(q, o.x), None>>
    [] o.op = "contains" -> <<q, <<"bool", IndexOf(q, o.x) >= 0>>>>
    [] o.op = "encode" -> <<q, <<"enc">>>>
CollNode(q) == [Node("ext", AC, <<>>) EXCEPT !.d = q]

\* ------------------------------------------------------------------ proxies
\* s = [c |-> class, a |-> function from names to values]
ProxyOp(s, o) ==
  CASE o.op = "wrap" -> <<[c |-> o.c, a |-> o.a], None>>
    [] o.op = "set" -> <<[s EXCEPT !.a = (o.k :> o.x) @@ @], None>>
    [] o.op = "get" -> <<s, IF o.k \in DOMAIN s.a THEN s.a[o.k] ELSE Err("AttributeError")>>
    [] o.op = "inner" -> <<s, <<"attrs", s.a>>>>
    [] o.op = "box" -> <<s, <<"enc">>>>
    [] o.op = "proxied" -> <<s, <<"is", IF o.x \in {"list", "tuple"} THEN "new coll" ELSE IF o.x \in {"dict", "asobject", "mixed"} THEN "new proxy" ELSE "same">>>>
    [] o.op = "unproxied" -> <<s, <<"is", IF o.x = "coll" THEN "new list" ELSE IF o.x = "proxy" THEN "within" ELSE "same">>>>
    [] o.op = "encode" -> <<s, <<"enc">>>>
\* a proxy of any value: an atom, or <<"l", items>>
BoxNodes(x) == IF x[1] = "l" THEN << [Node("ext", OP, <<>>) EXCEPT !.d = <<<<"ref", 2>>>>], [Node("list", <<>>, <<>>) EXCEPT !.d = x[2]] >>
               ELSE << [Node("ext", OP, <<>>) EXCEPT !.d = <<x>>] >>
Entries(f) == LET ks == FnToSeq(DOMAIN f) IN [i \in DOMAIN ks |-> <<<<"k", ks[i]>>, f[ks[i]]>>]
ProxyNodes(s) == << [Node("ext", OP, <<>>) EXCEPT !.d = <<<<"ref", 2>>>>],
                    [Node("obj", s.c, <<>>) EXCEPT !.e = Entries(s.a)] >>

\* a prescribed graph in the form of one that was read
Read_(nd) == [i \in DOMAIN nd |-> [nd[i] EXCEPT !.e = [j \in DOMAIN nd[i].e |-> <<nd[i].e[j][1][2], nd[i].e[j][2]>>]]]

\* ------------------------------------------------------- everything wrapped
\* node i becomes the wrapper, node Len(nd) + i what a proxy wraps
Wrapped(nd) ==
  [i \in 1..(2 * Len(nd)) |->
     LET n == nd[((i - 1) % Len(nd)) + 1] IN
     IF i > Len(nd) THEN n
     ELSE IF n.k = "list" THEN [n EXCEPT !.k = "ext", !.c = AC]
     ELSE IF n.k = "obj" /\ n.c = <<>> THEN [Node("ext", OP, <<>>) EXCEPT !.d = <<<<"ref", Len(nd) + i>>>>]
     ELSE n]

\* ----------------------------------------------------------------- messages
Pre == <<102,108,101,120,46,109,101,115,115,97,103,105,110,103,46,109,101,115,115,97,103,101,115,46>>
LongName(k) == Pre \o (CASE k = "Async" -> <<65,115,121,110,99>> [] k = "Ack" -> <<65,99,107,110,111,119,108,101,100,103,101>>
                         [] k = "Command" -> <<67,111,109,109,97,110,100>> [] k = "Error" -> <<69,114,114,111,114>>
                         [] k = "Remoting" -> <<82,101,109,111,116,105,110,103>>) \o <<77,101,115,115,97,103,101>>
ShortName(k) == CASE k = "Async" -> <<68,83,65>> [] k = "Ack" -> <<68,83,75>> [] k = "Command" -> <<68,83,67>>
\* attributes in the order of their flags
Attrs7 == <<"body", "clientId", "destination", "headers", "messageId", "timestamp", "timeToLive">>
AllAttrs(k) == {Attrs7[i] : i \in 1..7}
               \cup (IF k \in {"Async", "Ack", "Command", "Error"} THEN {"correlationId"} ELSE {})
               \cup (IF k \in {"Command", "Remoting"} THEN {"operation"} ELSE {})
               \cup (IF k = "Remoting" THEN {"source"} ELSE {})
               \cup (IF k = "Error" THEN {"extendedData", "faultCode", "faultDetail", "faultString", "rootCause"} ELSE {})
NameOf(a) ==
  CASE a = "body" -> <<98,111,100,121>>
    [] a = "clientId" -> <<99,108,105,101,110,116,73,100>>
    [] a = "destination" -> <<100,101,115,116,105,110,97,116,105,111,110>>
    [] a = "headers" -> <<104,101,97,100,101,114,115>>
    [] a = "messageId" -> <<109,101,115,115,97,103,101,73,100>>
    [] a = "timestamp" -> <<116,105,109,101,115,116,97,109,112>>
    [] a = "timeToLive" -> <<116,105,109,101,84,111,76,105,118,101>>
    [] a = "correlationId" -> <<99,111,114,114,101,108,97,116,105,111,110,73,100>>
    [] a = "operation" -> <<111,112,101,114,97,116,105,111,110>>
    [] a = "source" -> <<115,111,117,114,99,101>>
    [] a = "extendedData" -> <<101,120,116,101,110,100,101,100,68,97,116,97>>
    [] a = "faultCode" -> <<102,97,117,108,116,67,111,100,101>>
    [] a = "faultDetail" -> <<102,97,117,108,116,68,101,116,97,105,108>>
    [] a = "faultString" -> <<102,97,117,108,116,83,116,114,105,110,103>>
    [] a = "rootCause" -> <<114,111,111,116,67,97,117,115,101>>
FlexRegistered == {LongName(k) : k \in {"Async", "Ack", "Command", "Error", "Remoting"}} \cup {TA}

\* reading n values more
RECURSIVE RunN(_, _, _, _)
RunN(m, s, p, n) ==
  IF m.err # "" \/ (AtTop(m) /\ Len(m.out) = n) THEN <<m, p>>
  ELSE LET l == Lex(m, s, p) IN
       IF l[1].t = "more" THEN <<Fail(m, "io"), p>> ELSE RunN(Step(m, l[1]), s, l[2], n)
\* <<flag bytes, position>>
RECURSIVE Flags(_, _, _)
Flags(s, p, acc) ==
  IF p > Len(s) THEN <<acc, p>>
  ELSE IF s[p] < 128 THEN <<Append(acc, s[p]), p + 1>>
  ELSE Flags(s, p + 1, Append(acc, s[p] - 128))
Bit(b, i) == ((b \div Pow2(i)) % 2) = 1
\* an attribute is in flags: sections of a message, what can be in them:
\* sequences of <<flag byte, bit, attribute, "" or "uuid">>
Section(i) ==
  CASE i = 1 -> [x \in 1..7 |-> <<1, x - 1, Attrs7[x], "">>] \o << <<2, 0, "clientId", "uuid">>, <<2, 1, "messageId", "uuid">> >>
    [] i = 2 -> << <<1, 0, "correlationId", "">>, <<1, 1, "correlationId", "uuid">> >>
    [] i = 3 -> << <<1, 0, "operation", "">> >>
    [] i = 4 -> <<>>
Sections(k) == CASE k = "Async" -> <<1, 2>> [] k = "Ack" -> <<1, 2, 4>> [] k = "Command" -> <<1, 2, 3>>
\* which entries of a section are there, and whether other flags are set
Present(sec, fl) == SelectSeq(sec, LAMBDA e : e[1] <= Len(fl) /\ Bit(fl[e[1]], e[2]))
Foreign(sec, fl) == \E b \in DOMAIN fl : \E x \in 0..6 : Bit(fl[b], x) /\ ~\E i \in DOMAIN sec : sec[i][1] = b /\ sec[i][2] = x
\* r = [m, p, at (sequence of <<attribute, form>>), bad]; the values are in m.out
RECURSIVE ReadSections(_, _, _)
ReadSections(s, secs, r) ==
  IF secs = <<>> \/ r.bad # "" THEN r
  ELSE
  LET sec == Section(Head(secs))
      f == Flags(s, r.p, <<>>)
      pr == Present(sec, f[1])
      x == RunN(r.m, s, f[2], Len(r.m.out) + Len(pr)) IN
  IF f[1] = <<>> \/ Foreign(sec, f[1]) THEN [r EXCEPT !.bad = "the flags of the compact form are wrong"]
  ELSE IF x[1].err # "" THEN [r EXCEPT !.bad = "the compact form is not valid (" \o x[1].err \o ")"]
  ELSE ReadSections(s, Tail(secs), [r EXCEPT !.m = x[1], !.p = x[2], !.at = @ \o [i \in DOMAIN pr |-> <<pr[i][3], pr[i][4]>>]])
\* a message in compact form at p (behind "0a"): the description of its class
\* comes first, or a reference to it
ReadCompact(m, s, p, k) ==
  LET u == IF p <= Len(s) /\ s[p] = 10 THEN U29At(s, p + 1) ELSE <<Need, 0>>
      tr == [c |-> ShortName(k), enc |-> 1, s |-> <<>>]
      nm == LexStr3(s, u[2])
      name == IF nm[1].t = "s3i" THEN nm[1].b ELSE IF nm[1].t = "s3r" /\ nm[1].n < Len(m.s3) THEN m.s3[nm[1].n + 1] ELSE <<>>
      Known == u[1] # Need /\ (u[1] % 4) = 1 /\ (u[1] \div 4) < Len(m.t3) /\ m.t3[(u[1] \div 4) + 1] = tr
      New == u[1] = 7 /\ name = ShortName(k)
      m2 == IF Known THEN m ELSE [m EXCEPT !.t3 = Append(@, tr), !.s3 = IF nm[1].t = "s3i" THEN Append(@, name) ELSE @]
      m3 == Alloc3(m2, Node("ext", ShortName(k), <<>>)) IN
  IF ~Known /\ ~New THEN [m |-> m, p |-> p, at |-> <<>>, bad |-> "not a message in compact form"]
  ELSE ReadSections(s, Sections(k), [m |-> m3, p |-> IF Known THEN u[2] ELSE nm[2], at |-> <<>>, bad |-> ""])

\* --- what has to be in the compact form
\* a: function from attributes to values; a uuid is <<"uuid", bytes>> (sent as
\* a byte array); times are <<"ref", date>> or numbers, and travel as numbers
IsUuid(v) == v[1] = "uuid"
Times == {"timestamp", "timeToLive"}
Wire(nd, at, v) == IF at \in Times /\ v[1] = "ref" /\ nd[v[2]].k = "date" THEN <<"num", nd[v[2]].b>> ELSE v
\* a byte array stands for a uuid
AsUuid(nd, v) == IF v[1] = "ref" /\ nd[v[2]].k = "ba" THEN <<"uuid", nd[v[2]].b>> ELSE v
Form(v) == IF IsUuid(v) THEN "uuid" ELSE ""
\* values that need not be there: what is not there is null, or no headers
Omit(nd, at, v) == v = <<"null">> \/ (at = "headers" /\ v[1] = "ref" /\ nd[v[2]].k = "obj" /\ nd[v[2]].e = <<>>)
\* numbers as numbers: what is read for a time may be of either kind
AsNum(v) == IF v[1] = "int" THEN <<"num", I2D(v[2])>> ELSE v
Judge1(k, r, out, nd, a) ==      \* out: the values of this message
  LET there == {r.at[i][1] : i \in DOMAIN r.at}
      N(at, v) == IF at \in Times THEN AsNum(v) ELSE v
      Got(i) == IF r.at[i][2] = "uuid" THEN AsUuid(r.m.nd, out[i]) ELSE N(r.at[i][1], out[i]) IN
  IF \E i, j \in DOMAIN r.at : i # j /\ r.at[i][1] = r.at[j][1] THEN "an attribute is there twice"
  ELSE IF \E at \in AllAttrs(k) \ there : ~Omit(nd, at, a[at]) THEN "an attribute is missing"
  ELSE IF \E i \in DOMAIN r.at : r.at[i][2] # Form(a[r.at[i][1]]) THEN "an identifier is in the wrong form"
  ELSE SameGraph("enc3", r.m.nd, [i \in DOMAIN r.at |-> Got(i)],
                 nd, [i \in DOMAIN r.at |-> N(r.at[i][1], Wire(nd, r.at[i][1], a[r.at[i][1]]))])

\* --- what it expands to: numbers as times are dates, no headers are no
\* headers, the rest is as it was.  b: the attributes observed, bd their heap
Instant(nd, v) == IF v[1] = "ref" /\ nd[v[2]].k = "date" THEN <<"num", nd[v[2]].b>> ELSE AsNum(v)
Headers0(nd, v) == v = <<"null">> \/ (v[1] = "ref" /\ nd[v[2]].k = "obj" /\ nd[v[2]].e = <<>>)
Expanded(k, nd, a, bd, b) ==
  LET A_ == FnToSeq(AllAttrs(k) \ Times) IN
  IF DOMAIN b # AllAttrs(k) THEN "the message has other attributes"
  ELSE IF \E t \in Times : Instant(nd, a[t]) # Instant(bd, b[t]) THEN "a time is another one"
  ELSE IF Headers0(nd, a["headers"]) /\ ~Headers0(bd, b["headers"]) THEN "the headers differ"
  ELSE IF \E i \in DOMAIN A_ : Form(a[A_[i]]) # Form(b[A_[i]]) THEN "an identifier is of another kind"
  ELSE LET R == SelectSeq(A_, LAMBDA x : ~(x = "headers" /\ Headers0(nd, a["headers"])))
           V(nd_, f) == [i \in DOMAIN R |-> Wire(nd_, "", f[R[i]])] IN
       SameGraph("dec3", Read_(nd), V(nd, a), bd, V(bd, b))
=============================================================================
