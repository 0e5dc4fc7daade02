------------------------------- MODULE AMFGen ------------------------------
(* Behaviours of AMF.tla, one per line of a file of random choices ("tape").*)
(* A behaviour that has come to its end is printed with its bytes, the      *)
(* values it delivers and the heap.  The invariants check, on every state   *)
(* of every behaviour, that the machine is well formed and that reading the *)
(* bytes written so far leads back to the very same state.                  *)
EXTENDS AMF, Json, IOUtils, SequencesExt

CONSTANTS V,          \* 0 or 3: the protocol of the top level values
          Enc,        \* TRUE: only graphs that a writer can be asked for
          CheckLex,   \* TRUE: check that the lexer inverts the writer
          Break,      \* TRUE: break the stream somewhere
          Named,      \* TRUE: every other top level value is a new text
          Spoil       \* 0, or how to spoil a name in the graph to be written

Tapes == ndJsonDeserialize(IOEnv.TAPES)
N == Len(Tapes)

VARIABLES c, j, m, bs, ends, ph
vars == <<c, j, m, bs, ends, ph>>

\* ------------------------------------------------------------------ pools
Strs == << <<>>, <<97>>, <<98>>, <<97, 98>>, <<195, 169>>, <<226, 130, 172, 33>>,
           <<240, 159, 152, 128>>, <<0>>, <<112>>, <<113>>, <<48>>, <<49, 50>>,
           [i \in 1..63 |-> 120], [i \in 1..64 |-> 120], [i \in 1..130 |-> 121],
           TA, TB, <<239, 187, 191>>, <<206, 177, 206, 178>>, <<32>>, <<65>>,
           <<65, 66>>, <<32, 97>>, <<97, 32>> >>
Keys == << <<97>>, <<98>>, <<112>>, <<113>>, <<97, 98>>, <<120, 49>>, <<115>>, <<107, 95>>,
           [i \in 1..70 |-> 107] >>
AnonKeys == Keys \o << <<195, 169>>, <<49, 50>>, <<48>>, <<32, 97>>, <<0, 98>>, <<98, 10>>, <<95, 95, 100>> >>
MixKeys3 == Keys \o << <<195, 169>> >>
MixKeys0 == Keys \o << <<49, 50, 51, 52, 53>>, <<45, 56, 48, 48, 48, 48>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<48>>, <<49>>, <<50>>, <<55>>, <<49, 50>>, <<45, 50>>, <<195, 169>> >>
Ints == << 0, 1, 2, 127, 128, 16383, 16384, 2097151, 2097152, 268435455,
           -1, -2, -128, -16384, -268435456, 300, 70000, 5000000 >>
BigInts == Ints \o << 268435456, 536870911, 536870912, 2147483647,
                      -268435457, -536870912, -536870913, -2147483647 >>
Nums == << I2D(0), I2D(1), I2D(-1), I2D(268435456), I2D(2147483647),
           <<63,240,0,0,0,0,0,1>>, <<64,9,33,251,84,68,45,24>>, <<191,185,153,153,153,153,153,154>>,
           <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,0>>,
           <<0,0,0,0,0,0,0,1>>, <<128,0,0,0,0,0,0,0>>, <<127,239,255,255,255,255,255,255>>,
           <<67,64,0,0,0,0,0,0>>, <<67,63,255,255,255,255,255,255>>, <<126,55,228,60,136,0,117,156>> >>
Bas == << <<>>, <<0>>, <<1, 2, 3>>, <<120>>, <<255, 254>>, [i \in 1..70 |-> i] >>
BadKinds == <<"class", "function", "time", "oldclass", "builtin">>

Pick(s, r) == s[1 + (r % Len(s))]
Nth(S, r) == SetToSeq(S)[1 + (r % Cardinality(S))]

\* the first key from position r on that the node does not have yet
FreshKey(pool, used, r) ==
  LET F == {k \in 0..(Len(pool)-1) : Pick(pool, r + k) \notin used} IN
  IF F = {} THEN <<>>
  ELSE Pick(pool, r + CHOOSE k \in F : \A x \in F : k <= x)
UsedKeys(m_, id) == {m_.nd[id].e[i][1] : i \in DOMAIN m_.nd[id].e}

\* text b, as a reference (if r is even and b is in the table) or inline
TextTok(m_, b, r) ==
  LET at == {i \in DOMAIN m_.s3 : m_.s3[i] = b} IN
  IF at # {} /\ (r % 2) = 0
  THEN TokN("s3r", (CHOOSE i \in at : (r % 4) = 0 => \A k \in at : i <= k) - 1)
  ELSE TokB("s3i", b)

RandomDouble(r1, r2) == <<((r1 \div 65536) % 256), ((r1 \div 256) % 256), (r1 % 256), ((r1 \div 16777216) % 64),
                          ((r2 \div 65536) % 256), ((r2 \div 256) % 256), (r2 % 256), ((r2 \div 16777216) % 64)>>
\* an integer of a random magnitude
RandomInt(r1, r2) == LET a == (r1 % Pow2(1 + (r2 % 29))) IN
                     IF ((r2 \div 64) % 2) = 0 THEN (IF a > MaxI29 THEN a - Pow2(28) ELSE a)
                     ELSE -(IF a > MaxI29 THEN a - Pow2(28) ELSE a)

\* what the frame on top wants besides its context: the wrapped value of a
\* collection must be a list, that of a proxy an object
Wants(m_) == LET fr == Top(m_) IN
             IF fr.f = "ext" /\ m_.nd[fr.id].c = AC THEN "list"
             ELSE IF fr.f = "ext" /\ m_.nd[fr.id].c = OP THEN "obj"
             ELSE IF fr.f = "amf3" /\ Enc THEN "amf3only"
             ELSE ""
\* the list inside of a collection has no identity of its own
HiddenIds(m_) ==
  LET X == {i \in DOMAIN m_.nd : m_.nd[i].k = "ext" /\ m_.nd[i].c = AC} IN
  {m_.nd[i].d[1][2] : i \in {x \in X : m_.nd[x].d # <<>> /\ m_.nd[x].d[1][1] = "ref"}}
  \cup {m_.st[i].id : i \in {k \in DOMAIN m_.st : k > 1 /\ m_.st[k-1].f = "ext" /\ m_.nd[m_.st[k-1].id].c = AC}}
RefTargets3(m_) ==
  LET H == IF Enc THEN HiddenIds(m_) ELSE {}
      w == Wants(m_)
  IN
  {i \in DOMAIN m_.o3 :
     LET id == m_.o3[i]  n == m_.nd[id] IN
     /\ id \notin H
     /\ CASE w = "list" -> FALSE
          [] w = "obj" -> n.k = "obj"
          [] w = "amf3only" -> n.k = "ba" \/ (n.k = "ext" /\ n.c \in {AC, OP})
          [] OTHER -> TRUE}
Markers3(n) == IF n.k = "xml" THEN 11 ELSE CHOOSE x \in Marker3(n.k) : TRUE
RefTok3(m_, r) ==
  LET T == RefTargets3(m_)
      i == Nth(T, r)
      n == m_.nd[m_.o3[i]]
  IN TokR(IF n.k = "xml" /\ ((r \div 64) % 2) = 0 THEN 7 ELSE Markers3(n), i - 1)

Kinds3 == <<"undef", "null", "false", "true", "int", "int", "rint", "num", "rnum",
            "str", "str", "str", "sref", "date", "xml", "ba", "ref", "ref", "ref", "ref",
            "arr", "arr", "arr", "mix", "mix", "obj", "obj", "obj", "objr", "objr", "objr", "ext", "bad">>
Leaf3Kinds == <<"null", "int", "str", "sref", "ref", "num">>
BigKinds3 == <<"arr", "arr", "mix", "obj", "obj", "objr", "ext", "str", "ref", "int", "date">>
BigKinds0 == <<"arr", "arr", "mix", "obj", "obj", "typ", "amf3", "amf3", "str", "ref", "date">>
Kinds0 == <<"undef", "null", "unsup", "bool", "num", "int", "rint", "rnum", "str", "str", "lstr",
            "ref", "ref", "ref", "ref", "date", "xml", "arr", "arr", "mix", "mix", "obj", "obj",
            "typ", "typ", "amf3", "amf3", "bad">>
Leaf0Kinds == <<"null", "num", "str", "ref">>

Classes == IF Enc THEN << <<>>, TA, TB >> ELSE << <<>>, TA, TB, UK >>
ExtClasses == <<AC, OP, TX>>
ExtClasses0 == IF Enc THEN <<AC, OP>> ELSE ExtClasses

NewObj3(m_, cls, enc, n) == [t |-> "obj3", enc |-> enc, n |-> n]

ChooseValue3(m_, left, r1, r2, r3) ==
  LET w == Wants(m_)
      kind0 == IF w = "list" THEN "arr"
               ELSE IF w = "obj" THEN (IF (r1 % 3) = 0 THEN "ref" ELSE IF (r1 % 3) = 1 THEN "objr" ELSE "obj")
               ELSE IF w = "amf3only" THEN Pick(<<"ref", "ba", "ext", "ext">>, r1)
               ELSE IF left > 8 THEN Pick(BigKinds3, r1)
               ELSE IF left > 0 THEN Pick(Kinds3, r1) ELSE Pick(Leaf3Kinds, r1)
      kind == IF kind0 = "ref" /\ RefTargets3(m_) = {}
              THEN (IF w = "obj" THEN "obj" ELSE IF w = "amf3only" THEN "ba" ELSE "int")
              ELSE IF kind0 = "sref" /\ m_.s3 = <<>> THEN "str"
              ELSE IF kind0 = "objr" /\ m_.t3 = <<>> THEN "obj"
              ELSE IF kind0 = "bad" /\ (~Enc \/ (r2 % 12) # 0) THEN "null"
              ELSE kind0
      lst == w = "list" \/ left <= 0
      T == {i \in DOMAIN m_.t3 : w = "obj" => m_.t3[i].enc # 1}
  IN
  CASE kind = "undef" -> Atom(<<"undef">>)
    [] kind = "null" -> Atom(<<"null">>)
    [] kind = "false" -> Atom(<<"bool", FALSE>>)
    [] kind = "true" -> Atom(<<"bool", TRUE>>)
    [] kind = "bad" -> Atom(<<"bad", Pick(BadKinds, r3)>>)
    [] kind = "int" -> IF Enc THEN Atom(<<"int", Pick(BigInts, r2)>>)
                       ELSE AtomP(<<"int", Pick(Ints, r2)>>,
                                  IF (r3 % 8) = 0 /\ Len(I29(Pick(Ints, r2))) < 4
                                  THEN 1 + Len(I29(Pick(Ints, r2))) ELSE 0)
    [] kind = "rint" -> Atom(<<"int", RandomInt(r2, r3)>>)
    [] kind = "num" -> Atom(<<"num", Pick(Nums, r2)>>)
    [] kind = "rnum" -> Atom(<<"num", RandomDouble(r2, r3)>>)
    [] kind = "str" -> TextTok(m_, Pick(Strs, r2), r3)
    [] kind = "sref" -> TokN("s3r", (r2 % Len(m_.s3)))
    [] kind = "date" -> TokB("date3", Pick(DatePool, r2))
    [] kind = "xml" -> TokM("xml3", IF Enc \/ (r3 % 2) = 0 THEN 11 ELSE 7, Pick(XmlPool, r2))
    [] kind = "ba" -> TokB("ba3", Pick(Bas, r2))
    [] kind = "ref" -> RefTok3(m_, r2)
    [] kind = "arr" -> TokN("arr3", IF left <= 0 THEN 0 ELSE (r2 % 4))
    [] kind = "mix" -> TokN("arr3", IF left <= 0 THEN 0 ELSE (r2 % 3))
    [] kind = "obj" -> [t |-> "obj3", enc |-> IF (r2 % 3) = 0 THEN 0 ELSE 2,
                        n |-> IF left <= 0 THEN 0 ELSE (r3 % 3)]
    [] kind = "ext" -> [t |-> "obj3", enc |-> 1, n |-> 0]
    [] kind = "objr" ->
         IF T = {} THEN [t |-> "obj3", enc |-> 2, n |-> 0]
         ELSE LET i == Nth(T, r2)
              IN IF left <= 0 /\ m_.t3[i].enc = 1 THEN Atom(<<"null">>) ELSE TokN("obj3t", i - 1)

\* the custom class is written as an externalizable object in AMF3 only
ExtPool(m_) == IF m_.st[Len(m_.st) - 1].f = "amf3" THEN ExtClasses0 ELSE ExtClasses

ChooseString3(m_, left, r1, r2, r3) ==
  LET fr == Top(m_) IN
  CASE fr.f = "cls" ->
         TextTok(m_, IF fr.k[1] = 1 THEN Pick(ExtPool(m_), r1)
                     ELSE IF fr.n > 0 /\ fr.k[1] = 0 /\ (r1 % 3) # 0 THEN Pick(<<TA, TB>>, r1)
                     ELSE Pick(Classes, r1), r2)
    [] fr.f = "snm" -> TextTok(m_, FreshKey(Keys, Range(fr.s), r1), r2)
    [] fr.f = "arr3k" ->
         \* the list of a collection has no keys
         LET lim == Len(m_.st) > 1 /\ m_.st[Len(m_.st)-1].f = "ext"
                    /\ m_.nd[m_.st[Len(m_.st)-1].id].c = AC
             k == FreshKey(MixKeys3, UsedKeys(m_, fr.id), r2)
         IN IF lim \/ left <= 0 \/ (r1 % 3) # 0 THEN TokB("s3i", <<>>)
            ELSE TextTok(m_, k, r3)
    [] fr.f = "dynk" ->
         LET pool == IF m_.nd[fr.id].c = <<>> THEN AnonKeys ELSE Keys
             k == FreshKey(pool, UsedKeys(m_, fr.id), r2)
         IN IF left <= 0 \/ (r1 % 3) = 0 THEN TokB("s3i", <<>>)
            ELSE TextTok(m_, k, r3)

ChooseValue0(m_, left, r1, r2, r3) ==
  LET kind0 == IF left > 12 THEN Pick(BigKinds0, r1) ELSE IF left > 0 THEN Pick(Kinds0, r1) ELSE Pick(Leaf0Kinds, r1)
      \* AMF0 dates and documents are not written as references
      T == {i \in DOMAIN m_.o0 : Enc => m_.nd[m_.o0[i]].k \notin {"date", "xml"}}
      kind == IF kind0 = "ref" /\ T = {} THEN "num"
              ELSE IF kind0 = "bad" /\ (~Enc \/ (r2 % 12) # 0) THEN "null" ELSE kind0
  IN
  CASE kind = "undef" -> Atom(<<"undef">>)
    [] kind = "null" -> Atom(<<"null">>)
    [] kind = "unsup" -> AtomP(<<"null">>, 1)
    [] kind = "bad" -> Atom(<<"bad", Pick(BadKinds, r3)>>)
    [] kind = "bool" -> IF Enc \/ (r3 % 2) = 0 \/ (r2 % 2) = 1 THEN Atom(<<"bool", (r2 % 2) = 0>>)
                        ELSE AtomP(<<"bool", TRUE>>, Pick(<<2, 5, 9, 128, 255>>, r3 \div 2))
    [] kind = "int" -> IF Enc THEN Atom(<<"num0", I2D(Pick(BigInts, r2))>>)
                       ELSE Atom(<<"num0", I2D(Pick(Ints, r2))>>)
    [] kind = "rint" -> Atom(<<"num0", I2D(RandomInt(r2, r3))>>)
    [] kind = "num" -> Atom(<<"num0", Pick(Nums, r2)>>)
    [] kind = "rnum" -> Atom(<<"num0", RandomDouble(r2, r3)>>)
    [] kind = "str" -> TokM("str0", 2, Pick(Strs, r2))
    [] kind = "lstr" -> TokM("str0", 12, Pick(Strs, r2))
    [] kind = "ref" -> TokN("ref0", Nth(T, r2) - 1)
    [] kind = "date" -> [t |-> "date0", b |-> Pick(DatePool, r2),
                         k |-> Pick(<< <<0, 0>>, <<0, 60>>, <<254, 212>> >>, r3)]
    [] kind = "xml" -> TokB("xml0", Pick(XmlPool, r2))
    [] kind = "arr" -> TokN("arr0", (r2 % 4))
    [] kind = "mix" -> TokN("mix0", (r2 % 3))
    [] kind = "obj" -> Tok("obj0")
    [] kind = "typ" -> TokB("typ0", Pick(IF Enc THEN <<TA, TB>> ELSE <<TA, TB, UK>>, r2))
    [] kind = "amf3" -> Tok("amf3")

ChooseKey0(m_, left, r1, r2, r3) ==
  LET fr == Top(m_)
      nd == m_.nd[fr.id]
      pool == IF nd.k = "mixed" THEN MixKeys0 ELSE IF nd.c = <<>> THEN AnonKeys ELSE Keys
      k == IF nd.k = "obj" /\ nd.c = <<>> /\ (r3 % 16) = 0 /\ <<>> \notin UsedKeys(m_, fr.id)
           THEN <<>> ELSE FreshKey(pool, UsedKeys(m_, fr.id), r2)
  IN IF left <= 0 \/ (r1 % 3) = 0 \/ (k = <<>> /\ (r3 % 16) # 0) THEN Tok("end0")
     ELSE TokB("key0", k)

TopTexts(m_) == {m_.out[i][2] : i \in {k \in DOMAIN m_.out : (k % 2) = 1}}
Choose(m_, left, r1, r2, r3) ==
  LET x == Ctx(m_) IN
  CASE Named /\ AtTop(m_) /\ (Len(m_.out) % 2) = 0 ->
         LET k == FreshKey(AnonKeys \o <<<<>>>>, TopTexts(m_), r2) IN
         IF x = "value3" THEN TextTok(m_, k, r3) ELSE TokM("str0", 2, k)
    [] x = "value3" -> ChooseValue3(m_, left, r1, r2, r3)
    [] x = "string3" -> ChooseString3(m_, left, r1, r2, r3)
    [] x = "value0" -> ChooseValue0(m_, left, r1, r2, r3)
    [] x = "key0" -> ChooseKey0(m_, left, r1, r2, r3)

\* ------------------------------------------------------------- broken streams
\* a token that does not belong there: a reference to what does not exist
\* (in any of the tables, whatever the others hold), or an unknown marker
Beyond(n, r) == n + Pick(<<0, 0, 1, 2, 60, 500, 9000>>, r)
BadToken(m_, r1, r2) ==
  LET x == Ctx(m_) IN
  CASE x = "string3" -> TokN("s3r", Beyond(Len(m_.s3), r2))
    [] x = "value3" ->
         (CASE (r1 % 8) = 0 -> TokM("badmarker", Pick(<<13, 14, 16, 17, 18, 32, 64, 127, 128, 200, 255>>, r2), <<>>)
            [] (r1 % 8) \in {1, 2} -> TokN("s3r", Beyond(Len(m_.s3), r2))
            [] (r1 % 8) \in {3, 4} -> TokN("obj3t", Beyond(Len(m_.t3), r2))
            [] OTHER -> TokR(Pick(<<7, 8, 9, 10, 11, 12>>, r1 \div 8), Beyond(Len(m_.o3), r2)))
    [] x = "value0" ->
         IF (r1 % 3) = 0 THEN TokM("badmarker", Pick(<<4, 14, 18, 19, 32, 64, 127, 128, 200, 255>>, r2), <<>>)
         ELSE TokN("ref0", Beyond(Len(m_.o0), r2))
    [] OTHER -> Tok("none")

\* ------------------------------------------------------------- spoiled graphs
\* give an entry of a node the name b
NameNodes(nd) == {i \in DOMAIN nd : nd[i].k \in {"obj", "mixed"} /\ nd[i].c = <<>> /\ nd[i].e # <<>>}
SpoilName(nd, b, r) ==
  LET S == NameNodes(nd) IN
  IF S = {} THEN nd ELSE
  LET i == CHOOSE x \in S : Cardinality({y \in S : y < x}) = (r % Cardinality(S))
      e == 1 + ((r \div 7) % Len(nd[i].e))
  IN [nd EXCEPT ![i].e[e][1] = b]
Spoiled(nd, r) == CASE Spoil = 0 -> nd
                    [] Spoil = 1 -> SpoilName(nd, <<>>, r)
                    [] Spoil = 2 -> SpoilName(nd, [k \in 1..65536 |-> 107], r)
                    [] Spoil = 3 -> SpoilName(nd, [k \in 1..65535 |-> 107], r)
                    [] Spoil = 4 -> \* long text
                       LET S == {i \in DOMAIN nd : nd[i].k = "list" /\ nd[i].d # <<>>} IN
                       IF S = {} THEN nd ELSE
                       LET i == CHOOSE x \in S : \A y \in S : x <= y
                       IN [nd EXCEPT ![i].d[1] = <<"str", [k \in 1..(65534 + (r % 4)) |-> 97 + (k % 5)]>>]
                    [] Spoil = 5 -> \* long names, not ASCII
                       SpoilName(nd, [k \in 1..Pick(<<65534, 65536, 80000, 131070>>, r) |-> 195 - 26 * ((k + 1) % 2)], r)

\* ---------------------------------------------------------------- behaviour
Tape(k) == Tapes[c][1 + ((k % Len(Tapes[c])))]
Budget == Tapes[c][1]           \* first number of the tape: tokens to aim for
Ntop == Tapes[c][2]             \* second: number of values

Init == /\ c \in 1..N
        /\ j = 2 /\ m = Start(V) /\ bs = <<>> /\ ends = <<>> /\ ph = "go"

Done == m.err # "" \/ (AtTop(m) /\ Len(m.out) >= Ntop)
Grow == /\ ph = "go" /\ ~Done
        /\ LET left == Budget - (j - 2) \div 3
               t == IF Break /\ (left <= 0 \/ (Tape(j + 2) % 16) = 0) /\ Ctx(m) # "key0"
                    THEN BadToken(m, Tape(j), Tape(j + 1))
                    ELSE Choose(m, left, Tape(j), Tape(j + 1), Tape(j + 2))
               mm == Step(m, t)
               b2 == bs \o Ser(m, t)
           IN /\ m' = mm
              /\ bs' = b2
              /\ ends' = IF Len(mm.out) > Len(m.out) THEN Append(ends, Len(b2)) ELSE ends
        /\ j' = j + 3
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Done
        /\ PrintT(ToJson([id |-> c, v |-> V, inp |-> bs, ends |-> ends, out |-> m.out, nd |-> Spoiled(m.nd, Tape(3)), err |-> m.err]))
        /\ ph' = "end" /\ UNCHANGED <<c, j, m, bs, ends>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars

WellFormed == TypeOK(m) /\ (~Break => m.err = "")
\* reading back what was written leads to the same state
LexOK == (CheckLex /\ ph = "end" /\ ~Enc) =>
           LET r == Run(Start(V), bs, 1) IN r[1] = m /\ r[2] = Len(bs) + 1
=============================================================================
