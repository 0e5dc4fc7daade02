-------------------------------- MODULE Types -------------------------------
(* Type mappings: what is registered for a type is what its values are       *)
(* encoded as.                                                               *)
(*                                                                           *)
(* tm = the mappings, a function from keys to conversions.  A key is a       *)
(* sequence: <<"type", k>>, <<"tuple", k1, k2>> or <<"test", k>> (a callable *)
(* that recognizes class k).                                                 *)
(* Classes: 1 plain, 2 derived from 1, 3 registered as t.A, 4 derived from   *)
(* list, 5 old style, 6 derived from str (always text).  11.. come with      *)
(* adapters: 11, 12 sets; 13 deque; 14 defaultdict, 15 OrderedDict, 16       *)
(* Counter; 17 array; 18 Decimal; 19 weak reference; 20 WeakValueDictionary; *)
(* 21 WeakSet.                                                               *)
(* A value of such a class is a node of kind "cust" with c = <<class>> and   *)
(* content d.                                                                *)
EXTENDS AMF

Plain == {1, 2, 3, 4, 5}
Covers(key) == CASE key[1] = "type" -> IF key[2] = 1 THEN {1, 2} ELSE {key[2]}
                 [] key[1] = "tuple" -> UNION {IF key[i] = 1 THEN {1, 2} ELSE {key[i]} : i \in 2..Len(key)}
                 [] key[1] = "test" -> {key[2]}
                 [] key[1] = "junk" -> {}
\* which conversion is in force for a class ("" if none)
Bundled(k) == CASE k \in {11, 12, 13, 17, 21} -> "list"
                [] k \in {14, 15, 16, 20} -> "dict"
                [] k = 18 -> "num" [] k = 19 -> "first" [] OTHER -> ""
InForce(tm, k) == LET K == {key \in DOMAIN tm : k \in Covers(key)} IN
                  IF K = {} THEN Bundled(k) ELSE tm[CHOOSE key \in K : TRUE]
Unambiguous(tm) == \A a, b \in DOMAIN tm : a # b => Covers(a) \cap Covers(b) = {}

\* ------------------------------------------------------------ registering
\* <<mappings afterwards, what is returned or raised>>
Add(tm, key, conv) == IF key[1] = "junk" THEN <<tm, "TypeError">>
                      ELSE IF key \in DOMAIN tm THEN <<tm, "KeyError">>
                      ELSE <<tm @@ (key :> conv), "None">>
Get(tm, key) == <<tm, IF key \in DOMAIN tm THEN tm[key] ELSE "KeyError">>
Remove(tm, key) == IF key \in DOMAIN tm THEN <<[x \in DOMAIN tm \ {key} |-> tm[x]], tm[key]>>
                   ELSE <<tm, "KeyError">>

\* --------------------------------------------------------------- expanding
Num1(i) == <<97>> \o IntDigits(i)         \* "a1", "a2", ...
IsCust(nd, v) == v[1] = "ref" /\ nd[v[2]].k = "cust"
\* without a mapping these are objects or lists
KeepsIdentity(tm, n) == n.k # "cust" \/ (InForce(tm, n.c[1]) = "" /\ n.c[1] # 4)
AsObject(cls, vals) == [k |-> "obj", c |-> cls, e |-> [i \in DOMAIN vals |-> <<<<"k", Num1(i)>>, vals[i]>>], d |-> <<>>, b |-> <<>>]
AsList(vals) == [k |-> "list", c |-> <<>>, e |-> <<>>, d |-> vals, b |-> <<>>]
\* Exp: <<value, heap>> for a value; ExpAll: <<values, heap>>.  The heap
\* begins with the nodes of nd; node n + k is what class k always gives as "same"
Same(nd, k) == <<"ref", Len(nd) + k>>
RECURSIVE Exp(_, _, _, _), ExpAll(_, _, _, _, _)
ExpAll(tm, nd, vals, i, acc) ==
  IF i > Len(vals) THEN acc
  ELSE LET r == Exp(tm, nd, vals[i], acc[2]) IN ExpAll(tm, nd, vals, i + 1, <<Append(acc[1], r[1]), r[2]>>)
Exp(tm, nd, v, heap) ==
  IF ~IsCust(nd, v) \/ KeepsIdentity(tm, nd[v[2]]) THEN <<v, heap>>
  ELSE
  LET n == nd[v[2]]
      k == n.c[1]
      conv == IF InForce(tm, k) = "" THEN "list" ELSE InForce(tm, k)
      New(h, node) == <<<<"ref", Len(h) + 1>>, Append(h, node)>>
      In == ExpAll(tm, nd, n.d, 1, <<<<>>, heap>>)
  IN
  CASE conv \in {"list", "self"} -> New(In[2], AsList(In[1]))
    [] conv = "dict" -> New(In[2], AsObject(<<>>, In[1]))
    [] conv = "obj" -> New(In[2], AsObject(TB, In[1]))
    [] conv = "text" -> <<<<"str", <<84>> \o IntDigits(k)>>, heap>>
    [] conv = "int" -> <<<<"int", Len(n.d)>>, heap>>
    [] conv = "num" -> <<<<"num", <<63,248,0,0,0,0,0,0>>>>, heap>>
    [] conv = "null" -> <<<<"null">>, heap>>
    [] conv = "first" -> IF n.d = <<>> THEN <<<<"null">>, heap>> ELSE Exp(tm, nd, n.d[1], heap)
    [] conv = "same" -> <<Same(nd, k), heap>>
    [] conv = "bad" -> <<<<"bad", "class">>, heap>>
    [] conv = "raise" -> <<<<"bad", "raise">>, heap>>
\* nodes one by one: their contents
RECURSIVE ExpNodes(_, _, _, _)
ExpNodes(tm, nd, i, heap) ==
  IF i > Len(nd) THEN heap
  ELSE
  LET n == nd[i] IN
  IF ~KeepsIdentity(tm, n) THEN ExpNodes(tm, nd, i + 1, heap)
  ELSE LET in == ExpAll(tm, nd, n.d, 1, <<<<>>, heap>>)
           en == ExpAll(tm, nd, [j \in DOMAIN n.e |-> n.e[j][2]], 1, <<<<>>, in[2]>>)
           new == IF n.k = "cust" THEN AsObject(IF n.c[1] = 3 THEN TA ELSE <<>>, in[1])
                  ELSE [n EXCEPT !.d = in[1], !.e = [j \in DOMAIN n.e |-> <<n.e[j][1], en[1][j]>>]]
       IN ExpNodes(tm, nd, i + 1, [en[2] EXCEPT ![i] = new])
\* <<values, heap>> as they have to be sent
Expand(tm, nd, vals) ==
  LET h0 == nd \o [k \in 1..5 |-> AsList(<<<<"int", k>>>>)]
      r == ExpNodes(tm, nd, 1, h0)
  IN ExpAll(tm, nd, vals, 1, <<<<>>, r>>)

\* which errors lie on the way
RECURSIVE Reaches(_, _, _)
Reaches(nd, todo, seen) ==
  IF todo \subseteq seen THEN seen
  ELSE LET new == todo \ seen
           Of(n) == {n.d[i] : i \in DOMAIN n.d} \cup {n.e[i][2] : i \in DOMAIN n.e}
       IN Reaches(nd, UNION {{v[2] : v \in {w \in Of(nd[i]) : w[1] = "ref"}} : i \in new}, seen \cup new)
Errors(vals, nd) ==
  LET R == Reaches(nd, {vals[i][2] : i \in {k \in DOMAIN vals : vals[k][1] = "ref"}}, {})
      All == {vals[i] : i \in DOMAIN vals}
             \cup UNION {{nd[i].d[k] : k \in DOMAIN nd[i].d} \cup {nd[i].e[k][2] : k \in DOMAIN nd[i].e} : i \in R}
  IN {IF v[2] = "raise" THEN "ValueError" ELSE "enc" : v \in {w \in All : w[1] = "bad"}}
=============================================================================
