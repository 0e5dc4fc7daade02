------------------------------ MODULE AttrsGen ------------------------------
(* Class hierarchies and what is sent and received with them: at random     *)
(* from tapes (Mode = "tape"), or every way to declare one name in a class  *)
(* and its base (Mode = "all").                                             *)
EXTENDS Attrs, AMF, Json, IOUtils

CONSTANTS Mode, NC, NOps

Tapes == IF Mode = "tape" THEN ndJsonDeserialize(IOEnv.TAPES) ELSE <<>>
Names == <<"a", "b", "c", "p", "q", "s1", "s2", "s3">>
WireNames == <<"y", "z">>
Code(n) == CASE n = "a" -> <<97>> [] n = "b" -> <<98>> [] n = "c" -> <<99>> [] n = "p" -> <<112>>
             [] n = "q" -> <<113>> [] n = "y" -> <<121>> [] n = "z" -> <<122>>
             [] n = "s1" -> <<115, 49>> [] n = "s2" -> <<115, 50>> [] n = "s3" -> <<115, 51>>
Alias == <<TA, TB, TC, TD>>

VARIABLES c, cls, ops, ph
vars == <<c, cls, ops, ph>>

Seqs(S) == LET RECURSIVE F(_)
               F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
           IN F(S)

\* ------------------------------------------------------- one class from a tape
T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Bit(r, k) == ((r \div Pow2(k)) % 2) = 1
Rare(r, s, k) == Bit(r, k) /\ Bit(s, k)               \* one in four
NewClass(i) ==
  LET b == 14 * i
      on(k) == Bit(T(b + 10), k)
      role(k) == {n \in Range(Names) : on(k) /\ \E x \in DOMAIN Names : Names[x] = n /\ Rare(T(b + k), T(b + k + 1), x)}
      slots == (T(b + 6) % 3) = 0
      p == IF i = 1 THEN 0 ELSE IF (T(b + 7) % 5) = 0 THEN (T(b + 7) \div 8) % i ELSE i - 1
      j == 1 + (T(b + 13) % i)
      mixin == /\ p # 0 /\ j < i /\ (T(b + 12) % 2) = 0
               /\ j \notin Line(cls, p) /\ p \notin Line(cls, j)
               /\ \A h \in Line(cls, j) : cls[h].slots = <<>> \/ h \in Line(cls, p)
               /\ \A h \in DOMAIN cls : cls[h].q = 0
      x == T(b + 8) \div 4
      syn == IF (T(b + 8) % 4) # 0 THEN <<>>
             ELSE IF (x % 4) = 0 THEN << <<"a", "b">>, <<"b", "a">> >>
             ELSE << <<Names[1 + ((x \div 4) % 5)], WireNames[1 + (x % 2)]>> >>
  IN [p |-> p, q |-> IF mixin THEN j ELSE 0,
      st |-> Seqs(role(0)), ex |-> Seqs(role(2)), ro |-> Seqs(role(4)),
      dyn |-> <<"", "", "yes", "no">>[1 + ((T(b + 9) \div 2) % 4)],
      has_slots |-> slots, slots |-> IF slots /\ i < 4 THEN << <<"s1", "s2", "s3">>[i] >> ELSE <<>>,
      rw |-> IF i = 1 /\ (T(b + 9) % 3) = 0 THEN <<"p">> ELSE <<>>,
      rd |-> IF i = 2 /\ (T(b + 9) % 3) = 1 THEN <<"q">> ELSE <<>>,
      px |-> IF ~on(7) THEN <<>> ELSE Seqs({n \in {"a", "b", "c"} : \E y \in 1..3 : Names[y] = n /\ Bit(T(b + 11), y)}),
      amf3 |-> IF (T(b + 9) % 7) = 0 THEN "yes" ELSE "",
      syn |-> syn, reg |-> (T(b + 7) % 4) # 3]

\* synonyms are used as intended: one name for one attribute, and not the name
\* of another attribute unless that is renamed, too
\* ; a sealed instance can hold its static attributes
SynOk(i) ==
  LET S == Synonyms(cls, i)
      all == UNION {RangeOf(cls[j].syn) : j \in Line(cls, i)} IN
  /\ Sealed(cls, i) => Static(cls, i) \subseteq Own(cls, i)
  /\ \A s \in S : s[2] \in Range(WireNames) \/ \E t \in S : t[1] = s[2]
  /\ \A s, t \in S : (s[1] = t[1]) <=> (s[2] = t[2])
  /\ (\E j \in Line(cls, i) : cls[j].q # 0) => S = all

SubNames(r, S) == {n \in S : \E x \in DOMAIN Names : Names[x] = n /\ Bit(r, x)}
KindNames == <<"a", "b", "c", "y", "z">>
Kinds(r, S) == {n \in S : \E x \in DOMAIN KindNames : KindNames[x] = n /\ Bit(r, x)}

Op(k) ==
  LET b == 80 + 12 * k
      i == 1 + (T(b) % Len(cls))
      i2 == IF (T(b + 9) % 2) = 0 THEN i ELSE 1 + ((T(b + 9) \div 2) % Len(cls))
      dyn(h) == IF Sealed(cls, h) THEN {} ELSE Range(Names) \ Own(cls, h)
      proto == IF (T(b + 1) % 2) = 0 THEN 3 ELSE 0
      two == (T(b + 10) % 2) = 0
      \* the names under which the attributes arrive
      under(n, r) == LET w == Wire(cls, i, n) IN
                     IF Local(cls, i, n) = n /\ n # w /\ (r % 3) = 0 THEN n ELSE w
      locals == SubNames(T(b + 2), Range(Names)) \cup IF (T(b + 11) % 6) = 0 THEN {} ELSE Static(cls, i)
      given == {under(n, T(b + 11) \div 8) : n \in locals}
      traits == proto = 3 /\ (T(b + 5) % 3) # 0            \* may have further names
      sealed == IF proto = 0 THEN {} ELSE IF ~traits THEN given ELSE Kinds(T(b + 6), given) \cup SubNames(T(b + 6), given)
      locals2 == SubNames(T(b + 10) \div 2, Range(Names)) \cup Static(cls, i)
      given2 == {under(n, T(b + 11) \div 8) : n \in locals2}
      rest2 == {w \in given2 : \A x \in sealed : Local(cls, i, x) # Local(cls, i, w)}
      Inst(s, r) == [given |-> Seqs(s) \o Seqs(r)]
      kl == Kinds(T(b + 7), Range(KindNames))
  IN IF (T(b + 4) % 2) = 0
     THEN [op |-> "enc", v |-> proto, kl |-> Seqs(Kinds(T(b + 7), {"a", "b", "c"})),
           is |-> << [i |-> i, have |-> Seqs(SubNames(T(b + 2), dyn(i)))] >>
                  \o IF two THEN << [i |-> i2, have |-> Seqs(SubNames(T(b + 3), dyn(i2)))] >> ELSE <<>>]
     ELSE [op |-> "dec", i |-> i, v |-> proto, enc |-> IF traits THEN 2 ELSE 0, nsealed |-> Cardinality(sealed),
           kl |-> Seqs(kl), kac |-> IF proto = 3 THEN Seqs(Kinds(T(b + 8), kl)) ELSE <<>>,
           is |-> << Inst(sealed, given \ sealed) >>
                  \o IF two THEN << Inst(sealed, IF proto = 3 /\ ~traits THEN {} ELSE rest2) >> ELSE <<>>]

\* ----------------------------------------------------------- every small one
SubSeqs3 == << <<>>, <<"a">> >>
Dyns == <<"", "yes", "no">>
SmallN == 2 * 2 * 2 * 3
SmallClass(x, p, slots) ==
  [p |-> p, q |-> 0, px |-> <<>>, amf3 |-> "", st |-> SubSeqs3[1 + (x % 2)], ex |-> SubSeqs3[1 + ((x \div 2) % 2)], ro |-> SubSeqs3[1 + ((x \div 4) % 2)],
   dyn |-> Dyns[1 + ((x \div 8) % 3)], has_slots |-> slots, slots |-> IF slots THEN <<"s1">> ELSE <<>>,
   rw |-> <<>>, rd |-> <<>>, syn |-> <<>>, reg |-> (x % 5) # 0]
SmallOps ==
  LET Enc(i, v, h) == [op |-> "enc", v |-> v, kl |-> <<>>, is |-> << [i |-> i, have |-> h] >>]
      Dec(i, v, e, g, n) == [op |-> "dec", i |-> i, v |-> v, enc |-> e, nsealed |-> n, kl |-> <<>>, kac |-> <<>>,
                             is |-> << [given |-> g] >>]
      Two(i) ==
        LET g == Seqs({"a", "b"} \cup Static(cls, i))  h == IF Sealed(cls, i) THEN <<>> ELSE <<"a", "b">>
            st == Seqs(Static(cls, i)) IN
        << Enc(i, 3, h), Enc(i, 0, h), Enc(i, 3, <<>>), Dec(i, 3, 2, g, 1), Dec(i, 3, 0, g, Len(g)),
           Dec(i, 3, 2, st, Len(st)), Dec(i, 0, 2, g, 0), Dec(i, 3, 2, <<>>, 0) >>
  IN Two(2) \o Two(1)
\* numbers: base class, subclass, whether the base has slots
SmallId(n) == <<n % SmallN, (n \div SmallN) % SmallN, n \div (SmallN * SmallN)>>

\* ------------------------------------------------------------------ bytes
\* the message that a sender with the given traits produces
RECURSIVE Fold(_, _, _)
Fold(m, b, toks) == IF toks = <<>> THEN b
                    ELSE Fold(Step(m, Head(toks)), b \o Ser(m, Head(toks)), Tail(toks))
ValueOf(n) == Code(n) \o <<33>>
One(o, x, toks3) ==
  LET g == x.given
      val3(n) == IF n \notin Range(o.kl) THEN <<TokB("s3i", ValueOf(n))>>
                 ELSE (IF n \in Range(o.kac) THEN << [t |-> "obj3", enc |-> 1, n |-> 0], TokB("s3i", AC) >> ELSE <<>>)
                      \o << TokN("arr3", 1), TokB("s3i", <<>>), TokB("s3i", ValueOf(n)) >>
      val0(n) == IF n \notin Range(o.kl) THEN <<TokM("str0", 2, ValueOf(n))>>
                 ELSE << TokN("arr0", 1), TokM("str0", 2, ValueOf(n)) >>
      RECURSIVE All(_, _)
      All(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o All(F, Tail(s))
      key(n) == <<TokB("s3i", Code(n))>>
      pair3(n) == key(n) \o val3(n)
      pair0(n) == <<TokB("key0", Code(n))>> \o val0(n)
      ns == o.nsealed
  IN IF o.v = 3
     THEN toks3 \o All(val3, SubSeq(g, 1, ns))
          \o (IF o.enc = 2 THEN All(pair3, SubSeq(g, ns + 1, Len(g))) \o <<TokB("s3i", <<>>)>> ELSE <<>>)
     ELSE <<TokB("typ0", Alias[o.i])>> \o All(pair0, g) \o <<Tok("end0")>>
Message(o) ==
  LET g == o.is[1].given
      traits == << [t |-> "obj3", enc |-> o.enc, n |-> o.nsealed], TokB("s3i", Alias[o.i]) >>
                \o [k \in 1..o.nsealed |-> TokB("s3i", Code(g[k]))]
  IN Fold(Start(o.v), <<>>,
          One(o, o.is[1], traits) \o IF Len(o.is) = 1 THEN <<>> ELSE One(o, o.is[2], <<TokN("obj3t", 0)>>))
WithBytes(o) == IF o.op = "enc" THEN o ELSE o @@ [inp |-> Message(o)]

\* -------------------------------------------------------------- behaviour
Init == IF Mode = "tape"
        THEN c \in 1..Len(Tapes) /\ cls = <<>> /\ ops = <<>> /\ ph = "cls"
        ELSE /\ c \in 0..(2 * SmallN * SmallN - 1)
             /\ cls = << SmallClass(SmallId(c)[1], 0, SmallId(c)[3] = 1), SmallClass(SmallId(c)[2], 1, FALSE) >>
             /\ ops = <<>> /\ ph = "ops"
AddClass == /\ ph = "cls" /\ Mode = "tape"
            /\ cls' = Append(cls, NewClass(Len(cls) + 1))
            /\ ph' = IF Len(cls') = NC THEN "ops" ELSE "cls"
            /\ UNCHANGED <<c, ops>>
AddOp == /\ ph = "ops"
         /\ (\A i \in DOMAIN cls : SynOk(i))
         /\ IF Mode = "tape" THEN ops' = Append(ops, WithBytes(Op(Len(ops))))
            ELSE ops' = [k \in DOMAIN SmallOps |-> WithBytes(SmallOps[k])]
         /\ ph' = IF Mode # "tape" \/ Len(ops') = NOps THEN "emit" ELSE "ops"
         /\ UNCHANGED <<c, cls>>
Skip == /\ ph = "ops" /\ ~(\A i \in DOMAIN cls : SynOk(i))
        /\ PrintT(ToJson([id |-> c, skip |-> TRUE])) /\ ph' = "end" /\ UNCHANGED <<c, cls, ops>>
Emit == /\ ph = "emit" /\ PrintT(ToJson([id |-> c, cls |-> cls, ops |-> ops]))
        /\ ph' = "end" /\ UNCHANGED <<c, cls, ops>>
Next == AddClass \/ AddOp \/ Skip \/ Emit
Spec == Init /\ [][Next]_vars

Rules == \A k \in DOMAIN ops : \A x \in DOMAIN ops[k].is :
  LET o == ops[k]
      i == IF o.op = "enc" THEN o.is[x].i ELSE o.i
      have == IF o.op = "enc" THEN Range(o.is[x].have) ELSE {}
      given == IF o.op = "dec" THEN Range(o.is[x].given) ELSE {}
  IN /\ NeverSent(cls, i, have) /\ AlwaysSent(cls, i, have)
     /\ NeverAssigned(cls, i, given) /\ OnlyDeclared(cls, i, have, given)
     /\ Inherits(cls, i) /\ Undone(cls, i)
     /\ \A v, w \in given : Local(cls, i, v) = Local(cls, i, w) => v = w
=============================================================================
