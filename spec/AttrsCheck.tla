----------------------------- MODULE AttrsCheck -----------------------------
(* Observed for each operation: the bytes of an encoding, or the attributes *)
(* of the decoded instances as <<name, value, kind>>; err if it failed. The *)
(* kinds are "str", "list" and "ac" (an ArrayCollection).                   *)
EXTENDS Attrs, AMF, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
vars == <<c, k, bad>>

Code(n) == CASE n = "a" -> <<97>> [] n = "b" -> <<98>> [] n = "c" -> <<99>> [] n = "p" -> <<112>>
             [] n = "q" -> <<113>> [] n = "y" -> <<121>> [] n = "z" -> <<122>>
             [] n = "s1" -> <<115, 49>> [] n = "s2" -> <<115, 50>> [] n = "s3" -> <<115, 51>>
             [] OTHER -> <<63>>
Alias == <<TA, TB, TC, TD>>
Codes(S) == {Code(n) : n \in S}

OneWhy(cls, o, r, y) ==
  LET i == o.is[y].i
      have == RangeOf(o.is[y].have)
      three == o.v = 3 \/ AsAmf3(cls, i)
      nd == r.nd[r.out[y][2]]
      keys == {nd.e[x][1] : x \in DOMAIN nd.e}
      wires(S) == Codes({Wire(cls, i, n) : n \in S})
      descr == {x \in DOMAIN r.t3 : r.t3[x].c = Alias[i]}
      sealed == UNION {RangeOf(r.t3[x].s) : x \in descr}
      text(n) == <<"str", Code(n) \o <<33>>>>
      IsList(v, n) == v[1] = "ref" /\ r.nd[v[2]].k = "list" /\ r.nd[v[2]].e = <<>> /\ r.nd[v[2]].d = <<text(n)>>
      IsProxy(v, n) == v[1] = "ref" /\ r.nd[v[2]].k = "ext" /\ r.nd[v[2]].c = AC /\ IsList(r.nd[v[2]].d[1], n)
      Is(v, n) == IF n \in Missing(cls, i, have) THEN v = <<"undef">>
                  ELSE IF n \notin RangeOf(o.kl) THEN v = text(n)
                  ELSE IF three /\ n \in Proxied(cls, i) THEN IsProxy(v, n)
                  ELSE IsList(v, n)
  IN
  IF r.out[y][1] # "ref" \/ nd.k # "obj" THEN "the encoding of an instance is not an object"
  ELSE IF nd.c # Alias[i] THEN "an instance was sent as another class"
  ELSE IF keys \cap wires(Excluded(cls, i)) # {} THEN "an excluded attribute was sent"
  ELSE IF keys # Codes(Sent(cls, i, have)) \/ Len(nd.e) # Cardinality(keys)
       THEN "other attributes were sent than configured"
  ELSE IF three /\ descr = {} THEN "an instance was not sent in AMF3"
  ELSE IF ~three /\ descr # {} THEN "an instance was sent in AMF3"
  ELSE IF three /\ ~(wires(Static(cls, i)) \subseteq sealed) THEN "a static attribute is not in the static part"
  ELSE IF three /\ ~(sealed \subseteq wires(Declared(cls, i))) THEN "an undeclared attribute is in the static part"
  ELSE IF \E x \in DOMAIN nd.e : \E n \in SentLocal(cls, i, have) :
             Code(Wire(cls, i, n)) = nd.e[x][1] /\ ~Is(nd.e[x][2], n)
       THEN "an attribute was sent with another value"
  ELSE ""
First(s) == LET RECURSIVE F(_)
                F(x) == IF x > Len(s) THEN "" ELSE IF s[x] # "" THEN s[x] ELSE F(x + 1)
            IN F(1)
EncWhy(cls, o) ==
  LET r == Run(Start(o.v), o.inp, 1)[1] IN
  IF o.err # "" THEN "encoding an instance failed with " \o o.err
  ELSE IF r.err # "" \/ Len(r.out) # Len(o.is) THEN "the encoding of an instance is not valid"
  ELSE First([y \in DOMAIN o.is |-> OneWhy(cls, o, r, y)])

GotWhy(cls, o, y) ==
  LET i == o.i
      given == RangeOf(o.is[y].given)
      obs == o.got[y]
      got == {obs[x][1] : x \in DOMAIN obs}
      want == Assigned(cls, i, given)
      Kind(n, w) == IF w \notin RangeOf(o.kl) THEN "str"
                    ELSE IF w \in RangeOf(o.kac) /\ n \notin Proxied(cls, i) THEN "ac" ELSE "list"
  IN
  IF got \cap Excluded(cls, i) # {} THEN "an excluded attribute was assigned"
  ELSE IF got \cap ReadOnly(cls, i) # {} THEN "a read only attribute was assigned"
  ELSE IF ~(got \subseteq want) THEN "an attribute was assigned that is not permitted"
  ELSE IF got # want THEN "a permitted attribute was not assigned"
  ELSE IF \E x \in DOMAIN obs : \E w \in given : Local(cls, i, w) = obs[x][1]
               /\ (obs[x][2] # Code(w) \o <<33>> \/ obs[x][3] # Kind(obs[x][1], w))
       THEN "an attribute was assigned another value"
  ELSE ""
DecWhy(cls, o) ==
  IF \E y \in DOMAIN o.is : Refused(cls, o.i, RangeOf(o.is[y].given))
  THEN IF o.err = "" THEN "an instance was accepted although a static attribute is missing" ELSE ""
  ELSE IF o.err # "" THEN "decoding an instance failed with " \o o.err
  ELSE IF Len(o.got) # Len(o.is) THEN "other instances were decoded than sent"
  ELSE First([y \in DOMAIN o.is |-> GotWhy(cls, o, y)])

C == Cases[c]
Why(o) == IF o.op = "enc" THEN EncWhy(C.cls, o) ELSE DecWhy(C.cls, o)
Init == c \in 1..Len(Cases) /\ k = 1 /\ bad = ""
Next ==
  \/ /\ bad = "" /\ k <= Len(C.ops)
     /\ bad' = Why(C.ops[k]) /\ k' = k + 1 /\ UNCHANGED c
  \/ /\ bad # "end" /\ (bad # "" \/ k > Len(C.ops))
     /\ PrintT("V " \o ToString(C.id) \o " " \o (IF bad = "" THEN "ok" ELSE "FAIL " \o bad))
     /\ bad' = "end" /\ UNCHANGED <<c, k>>
Spec == Init /\ [][Next]_vars
=============================================================================
