-------------------------------- MODULE Attrs -------------------------------
(* What the attribute configuration of classes means.                       *)
(*                                                                          *)
(* cls is a sequence of classes, each with                                  *)
(*   p, q        its base classes (earlier indexes), 0 if it has none       *)
(*   st, ex, ro  names declared static, excluded, read only (sequences)     *)
(*   dyn         "" (not declared), "yes" or "no"                           *)
(*   slots       names of slots; has_slots tells whether slots are declared *)
(*   rw, rd      properties with and without a setter                       *)
(*   syn         pairs <<local name, name on the wire>>                     *)
(*   px          names of proxied attributes                                *)
(*   amf3        "yes" if instances are written as AMF3 whatever the rest   *)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in DOMAIN s}

\* the class and its bases
RECURSIVE Line(_, _)
Line(cls, i) == IF i = 0 THEN {} ELSE {i} \cup Line(cls, cls[i].p) \cup Line(cls, cls[i].q)
\* from the nearest to the furthest (two base classes have a common end at most)
RECURSIVE Mro(_, _)
Mro(cls, i) ==
  IF i = 0 THEN <<>>
  ELSE <<i>> \o SelectSeq(Mro(cls, cls[i].p), LAMBDA j : j \notin Line(cls, cls[i].q))
             \o Mro(cls, cls[i].q)

Excluded(cls, i) == UNION {RangeOf(cls[j].ex) : j \in Line(cls, i)}
ReadOnly(cls, i) == UNION {RangeOf(cls[j].ro) \cup RangeOf(cls[j].rd) : j \in Line(cls, i)}
Static(cls, i)   == UNION {RangeOf(cls[j].st) : j \in Line(cls, i)} \ Excluded(cls, i)
Slots(cls, i)    == UNION {RangeOf(cls[j].slots) : j \in Line(cls, i)}
Props(cls, i)    == UNION {RangeOf(cls[j].rw) \cup RangeOf(cls[j].rd) : j \in Line(cls, i)}
SetProps(cls, i) == UNION {RangeOf(cls[j].rw) : j \in Line(cls, i)}
Proxied(cls, i)  == UNION {RangeOf(cls[j].px) : j \in Line(cls, i)}
AsAmf3(cls, i)   == \E j \in Line(cls, i) : cls[j].amf3 = "yes"
\* a class overrides the synonyms of its bases
Synonyms(cls, i) ==
  LET m == Mro(cls, i)
      has(k, n) == \E s \in RangeOf(cls[m[k]].syn) : s[1] = n
  IN UNION {{s \in RangeOf(cls[m[k]].syn) : \A h \in 1..(k - 1) : ~has(h, s[1])} : k \in DOMAIN m}
\* no instance dictionary
Sealed(cls, i) == i # 0 /\ \A j \in Line(cls, i) : cls[j].has_slots
\* whether undeclared attributes take part
RECURSIVE Dynamic(_, _)
Dynamic(cls, i) ==
  IF Sealed(cls, i) THEN FALSE
  ELSE IF cls[i].dyn # "" THEN cls[i].dyn = "yes"
  ELSE IF cls[i].p = 0 THEN TRUE
  ELSE Dynamic(cls, cls[i].p) \/ Sealed(cls, cls[i].p)

\* attributes that every instance has
Own(cls, i) == Slots(cls, i) \cup Props(cls, i)
Declared(cls, i) == Own(cls, i) \cup Static(cls, i)

Wire(cls, i, n) == IF \E s \in Synonyms(cls, i) : s[1] = n
                   THEN (CHOOSE s \in Synonyms(cls, i) : s[1] = n)[2] ELSE n
Local(cls, i, w) == IF \E s \in Synonyms(cls, i) : s[2] = w
                    THEN (CHOOSE s \in Synonyms(cls, i) : s[2] = w)[1] ELSE w

\* local names of what is sent for an instance with the attributes have
SentLocal(cls, i, have) ==
  (Declared(cls, i) \cup IF Dynamic(cls, i) THEN have ELSE {}) \ Excluded(cls, i)
Sent(cls, i, have) == {Wire(cls, i, n) : n \in SentLocal(cls, i, have)}
\* a static attribute that the instance lacks is sent as undefined
Missing(cls, i, have) == Static(cls, i) \ (have \cup Own(cls, i))

\* an instance lacks an attribute that its class declares static
Refused(cls, i, given) == ~(Static(cls, i) \subseteq {Local(cls, i, w) : w \in given})
\* local names of what is assigned when the names given arrive
Assigned(cls, i, given) ==
  LET L == {Local(cls, i, w) : w \in given} IN
  (IF Dynamic(cls, i) THEN L
   ELSE L \cap (Slots(cls, i) \cup SetProps(cls, i) \cup Static(cls, i)))
  \ (Excluded(cls, i) \cup ReadOnly(cls, i))

\* ------------------------------------------------------------- properties
\* (checked for every configuration that AttrsGen produces)
NeverSent(cls, i, have) ==
  \A n \in Excluded(cls, i) : n \notin SentLocal(cls, i, have)
AlwaysSent(cls, i, have) == Static(cls, i) \subseteq SentLocal(cls, i, have)
NeverAssigned(cls, i, given) ==
  Assigned(cls, i, given) \cap (Excluded(cls, i) \cup ReadOnly(cls, i)) = {}
OnlyDeclared(cls, i, have, given) ==
  ~Dynamic(cls, i) => /\ SentLocal(cls, i, have) \subseteq Declared(cls, i)
                      /\ Assigned(cls, i, given) \subseteq Declared(cls, i)
\* base classes pass on their restrictions
Inherits(cls, i) == cls[i].p # 0 =>
  /\ Excluded(cls, cls[i].p) \subseteq Excluded(cls, i)
  /\ ReadOnly(cls, cls[i].p) \subseteq ReadOnly(cls, i)
\* what is sent under a name is accepted under this name
Undone(cls, i) ==
  \A n \in Declared(cls, i) \cup {s[1] : s \in Synonyms(cls, i)} : Local(cls, i, Wire(cls, i, n)) = n
=============================================================================
