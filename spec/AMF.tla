-------------------------------- MODULE AMF --------------------------------
(* The Action Message Format as a state machine.                            *)
(*                                                                          *)
(* A message is a sequence of tokens; the state `m' is everything a reader  *)
(* or a writer of the message has to know after some of them: the values    *)
(* delivered so far, the heap of shareable values ("nodes"), the reference  *)
(* tables of AMF0 and AMF3, and the stack of values under construction.     *)
(* Step(m, t) is the transition relation, Ser(t) the wire form of a token   *)
(* and Lex(m, s, p) its inverse: the token at position p of the bytes s.    *)
(*                                                                          *)
(* A value is a tagged tuple: <<"undef">> <<"null">> <<"bool", b>>          *)
(* <<"int", n>> <<"num", bytes8>> <<"num0", bytes8>> (AMF0) <<"str", utf8>> *)
(* <<"ref", id>>, where id is the index of a node in the heap.              *)
EXTENDS Bytes

CONSTANT Strict     \* TRUE: objects of unknown classes are refused

\* ---------------------------------------------------------------- classes
TA == <<116, 46, 65>>                  \* "t.A": registered, dynamic
TB == <<116, 46, 66>>                  \* "t.B": registered, dynamic
TC == <<116, 46, 67>>                  \* "t.C", "t.D": registered in Attrs.tla
TD == <<116, 46, 68>>
TX == <<116, 46, 88>>                  \* "t.X": externalizable, two values
UK == <<117, 46, 75>>                  \* "u.K": never registered
\* "flex.messaging.io.ArrayCollection", "flex.messaging.io.ObjectProxy"
FLEX == <<102,108,101,120,46,109,101,115,115,97,103,105,110,103,46,105,111,46>>
AC == FLEX \o <<65,114,114,97,121,67,111,108,108,101,99,116,105,111,110>>
OP == FLEX \o <<79,98,106,101,99,116,80,114,111,120,121>>
Digits3(i) == <<48 + (i \div 100), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
WC(i) == <<119, 46>> \o Digits3(i)    \* "w.000", ...: registered, dynamic
SC(i) == <<118, 46>> \o Digits3(i)    \* "v.007": with the static attributes s001 ... s007
Registered == {TA, TB, TC, TD} \cup {WC(i) : i \in 0..199} \cup {SC(i) : i \in 0..199}
External == {TX, AC, OP}
KnownClass(c) == c \in External \cup {UK, <<>>} \/ c \in Registered
ExtN(c) == IF c = TX THEN 2 ELSE 1

\* ---------------------------------------------- payloads with a known meaning
\* (the meaning of the others is not specified here, see Dates.tla, Xml.tla)
DatePool == <<
  I2D(0), I2D(86400000), I2D(-1), I2D(1000), I2D(-86400000),
  <<66, 113, 27, 79, 65, 36, 192, 0>>,      \* 2007-03-14T12:51:02.156Z
  <<66, 112, 2, 164, 236, 168, 0, 0>>,      \* some time in 2004
  <<194, 104, 3, 61, 6, 108, 0, 0>>,        \* well before 1970
  <<66, 115, 165, 0, 0, 0, 16, 0>> >>
XmlPool == <<
  <<60,97,62,120,60,47,97,62>>,                                   \* <a>x</a>
  <<60,97,32,98,61,34,99,34,62,60,100,62,101,60,47,100,62,60,47,97,62>>,
  <<60,114,62,60,97,62,49,60,47,97,62,116,60,97,62,50,60,47,97,62,60,47,114,62>> >>
Range(s) == {s[i] : i \in DOMAIN s}
\* dates are compared to the millisecond
DateKey(b) == Nearest(b)
DateKeys == {DateKey(DatePool[i]) : i \in DOMAIN DatePool}
DateOk(b) == b \in Range(DatePool) \/ ((b[1] % 128) < 67 /\ DateKey(b) \in DateKeys)
\* what a document means, or why it is not read
XmlRead(b) == IF b \in Range(XmlPool) THEN <<"doc", b>> ELSE <<"any", <<>>>>
BaOk(b) == ~(Len(b) >= 2 /\ b[1] = 120 /\ b[2] \in {156, 218})

\* ------------------------------------------------------------------ state
Node(k, c, b) == [k |-> k, c |-> c, e |-> <<>>, d |-> <<>>, b |-> b]
Frame(f, id, n, k, s) == [f |-> f, id |-> id, n |-> n, k |-> k, s |-> s]

Start(v) == [ st  |-> <<Frame(IF v = 0 THEN "top0" ELSE "top3", 0, 0, <<>>, <<>>)>>,
              nd  |-> <<>>, o0 |-> <<>>, o3 |-> <<>>, s3 |-> <<>>, t3 |-> <<>>,
              out |-> <<>>,
              err |-> "",          \* why the stream is refused from here on
              ds  |-> 0,           \* text written inline although in the table
              dt  |-> <<>> ]       \* classes described inline

Top(m)  == m.st[Len(m.st)]
Pop(m)  == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Push(m, fr) == [m EXCEPT !.st = Append(@, fr)]
SetTop(m, fr) == [m EXCEPT !.st[Len(m.st)] = fr]
Fail(m, e) == [m EXCEPT !.err = e]
AtTop(m) == Len(m.st) = 1

\* what is expected next
Ctx(m) == LET f == Top(m).f IN
  CASE f \in {"top3", "arr3v", "arr3d", "seal", "dynv", "ext", "amf3"} -> "value3"
    [] f \in {"arr3k", "dynk", "cls", "snm"} -> "string3"
    [] f \in {"top0", "arr0", "obj0v"} -> "value0"
    [] f = "obj0k" -> "key0"

\* --------------------------------------------------- delivering a value
\* a value is complete: hand it to whatever is under construction
\* a list that has been read completely
Wrappable(m, v) == v[1] = "ref" /\ m.nd[v[2]].k = "list" /\ \A i \in DOMAIN m.st : m.st[i].id # v[2]
RECURSIVE Deliver(_, _)
Deliver(m, v) ==
  LET fr == Top(m)
      id == fr.id
      Entry(nx) == SetTop([m EXCEPT !.nd[id].e = Append(@, <<fr.k, v>>)], nx)
      Elem == [m EXCEPT !.nd[id].d = Append(@, v)]
      Done(mm) == Deliver(Pop(mm), <<"ref", id>>)
  IN
  CASE fr.f \in {"top0", "top3"} -> [m EXCEPT !.out = Append(@, v)]
    [] fr.f = "amf3"  -> Deliver(Pop(m), v)
    [] fr.f = "arr3v" -> Entry([fr EXCEPT !.f = "arr3k"])
    [] fr.f = "dynv"  -> Entry([fr EXCEPT !.f = "dynk"])
    [] fr.f = "obj0v" -> Entry([fr EXCEPT !.f = "obj0k"])
    [] fr.f = "ext" /\ m.nd[id].c = AC /\ ~Wrappable(m, v) ->
         \* a collection wraps a list
         Fail(m, IF v[1] \in {"ref", "xml"} THEN "any" ELSE "dec")
    [] fr.f \in {"arr3d", "arr0", "ext"} ->
         IF Len(Elem.nd[id].d) = fr.n THEN Done(Elem) ELSE Elem
    [] fr.f = "seal" ->    \* fr.n attributes done; fr.k = <<encoding>>
         LET i == fr.n + 1
             mm == [m EXCEPT !.nd[id].e = Append(@, <<fr.s[i], v>>)]
         IN IF i < Len(fr.s) THEN SetTop(mm, [fr EXCEPT !.n = i])
            ELSE IF fr.k = <<2>> THEN SetTop(mm, [fr EXCEPT !.f = "dynk"])
            ELSE Done(mm)

Alloc3(m, node) == LET mm == [m EXCEPT !.nd = Append(@, node)]
                   IN [mm EXCEPT !.o3 = Append(@, Len(mm.nd))]
Alloc0(m, node) == LET mm == [m EXCEPT !.nd = Append(@, node)]
                   IN [mm EXCEPT !.o0 = Append(@, Len(mm.nd))]
\* a value without parts
Leaf3(m, node) == LET mm == Alloc3(m, node) IN Deliver(mm, <<"ref", Len(mm.nd)>>)
Leaf0(m, node) == LET mm == Alloc0(m, node) IN Deliver(mm, <<"ref", Len(mm.nd)>>)

\* ------------------------------------------------------- AMF3 transitions
\* an object whose class description tr = [c, enc, s] is known
StartObject(m, tr) ==
  IF tr.enc = 3 \/ (tr.enc = 1 /\ tr.s # <<>>) \/ ~KnownClass(tr.c)
     \/ (tr.enc # 1 /\ tr.c \in External)
     \/ (tr.enc = 1 /\ (tr.c = <<>> \/ tr.c \in Registered))
     \/ \E i \in DOMAIN tr.s : tr.s[i] = <<>>
  THEN Fail(m, "any")
  ELSE IF tr.enc = 1 /\ tr.c \notin External THEN Fail(m, "dec")
  ELSE
    LET mm == Alloc3(m, Node(IF tr.enc = 1 THEN "ext" ELSE "obj", tr.c, <<>>))
        id == Len(mm.nd)
    IN IF tr.enc = 1 THEN Push(mm, Frame("ext", id, ExtN(tr.c), <<>>, <<>>))
       ELSE IF tr.s # <<>> THEN Push(mm, Frame("seal", id, 0, <<tr.enc>>, tr.s))
       ELSE IF tr.enc = 2 THEN Push(mm, Frame("dynk", id, 0, <<>>, <<>>))
       ELSE Deliver(mm, <<"ref", id>>)

\* the class description is complete: remember it and start the object
NewTraits(m, tr) ==
  StartObject([Pop(m) EXCEPT !.t3 = Append(@, tr), !.dt = Append(@, tr.c)], tr)

\* a text b has arrived where one was expected
Text3(m, b) ==
  LET fr == Top(m) IN
  CASE fr.f = "arr3k" ->
         IF b # <<>> THEN [SetTop(m, [fr EXCEPT !.f = "arr3v", !.k = b])
                             EXCEPT !.nd[fr.id].k = "mixed"]
         ELSE IF fr.n = 0 THEN Deliver(Pop(m), <<"ref", fr.id>>)
         ELSE SetTop(m, [fr EXCEPT !.f = "arr3d"])
    [] fr.f = "dynk" ->
         IF b # <<>> THEN SetTop(m, [fr EXCEPT !.f = "dynv", !.k = b])
         ELSE Deliver(Pop(m), <<"ref", fr.id>>)
    [] fr.f = "cls" ->          \* fr.n sealed names follow, fr.k = <<encoding>>
         IF ~KnownClass(b) THEN Fail(m, "any")
         ELSE IF b = UK /\ Strict THEN Fail(m, "unk")
         ELSE IF fr.n = 0 THEN NewTraits(m, [c |-> b, enc |-> fr.k[1], s |-> <<>>])
         ELSE SetTop(m, [fr EXCEPT !.f = "snm", !.k = <<fr.k[1], b>>])
    [] fr.f = "snm" ->
         LET s == Append(fr.s, b) IN
         IF Len(s) = fr.n THEN NewTraits(m, [c |-> fr.k[2], enc |-> fr.k[1], s |-> s])
         ELSE SetTop(m, [fr EXCEPT !.s = s])
    [] OTHER -> IF IsUtf8(b) THEN Deliver(m, <<"str", b>>) ELSE Fail(m, "any")

\* which marker belongs to which kind of node
Marker3(k) == CASE k = "date" -> {8} [] k = "xml" -> {7, 11} [] k = "ba" -> {12}
                [] k \in {"list", "mixed"} -> {9} [] k \in {"obj", "ext"} -> {10}

Step3(m, t) ==
  CASE t.t = "atom" -> Deliver(m, t.v)
    [] t.t = "s3i" ->
         LET mm == IF t.b = <<>> THEN m
                   ELSE [m EXCEPT !.s3 = Append(@, t.b),
                                  !.ds = IF t.b \in Range(m.s3) THEN @ + 1 ELSE @]
         IN Text3(mm, t.b)
    [] t.t = "s3r" -> IF t.n >= Len(m.s3) THEN Fail(m, "ref")
                      ELSE Text3(m, m.s3[t.n + 1])
    [] t.t = "o3r" -> IF t.n >= Len(m.o3) THEN Fail(m, "ref")
                      ELSE IF t.mk \notin Marker3(m.nd[m.o3[t.n + 1]].k) THEN Fail(m, "any")
                      ELSE Deliver(m, <<"ref", m.o3[t.n + 1]>>)
    [] t.t = "date3" -> IF DateOk(t.b) THEN Leaf3(m, Node("date", <<>>, t.b)) ELSE Fail(m, "any")
    [] t.t = "xml3" -> LET x == XmlRead(t.b) IN IF x[1] = "doc" THEN Leaf3(m, Node("xml", <<>>, x[2])) ELSE Fail(m, x[1])
    [] t.t = "ba3" -> IF BaOk(t.b) THEN Leaf3(m, Node("ba", <<>>, t.b)) ELSE Fail(m, "any")
    [] t.t = "arr3" -> LET mm == Alloc3(m, Node("list", <<>>, <<>>))
                       IN Push(mm, Frame("arr3k", Len(mm.nd), t.n, <<>>, <<>>))
    [] t.t = "obj3" -> Push(m, Frame("cls", 0, t.n, <<t.enc>>, <<>>))
    [] t.t = "obj3t" -> IF t.n >= Len(m.t3) THEN Fail(m, "ref")
                        ELSE StartObject(m, m.t3[t.n + 1])

\* ------------------------------------------------------- AMF0 transitions
Step0(m, t) ==
  CASE t.t = "atom" -> Deliver(m, t.v)
    [] t.t = "str0" -> IF IsUtf8(t.b) THEN Deliver(m, <<"str", t.b>>) ELSE Fail(m, "any")
    [] t.t = "ref0" -> IF t.n >= Len(m.o0) THEN Fail(m, "ref")
                       ELSE Deliver(m, <<"ref", m.o0[t.n + 1]>>)
    [] t.t = "obj0" -> LET mm == Alloc0(m, Node("obj", <<>>, <<>>))
                       IN Push(mm, Frame("obj0k", Len(mm.nd), 0, <<>>, <<>>))
    [] t.t = "typ0" ->
         IF t.b = UK /\ Strict THEN Fail(m, "unk")
         ELSE IF t.b # UK /\ t.b \notin Registered THEN Fail(m, "any")
         ELSE LET mm == Alloc0(m, Node("obj", t.b, <<>>))
              IN Push(mm, Frame("obj0k", Len(mm.nd), 0, <<>>, <<>>))
    [] t.t = "mix0" -> LET mm == Alloc0(m, Node("mixed", <<>>, <<>>))
                       IN Push(mm, Frame("obj0k", Len(mm.nd), 0, <<>>, <<>>))
    [] t.t = "arr0" -> LET mm == Alloc0(m, Node("list", <<>>, <<>>))
                           id == Len(mm.nd)
                       IN IF t.n = 0 THEN Deliver(mm, <<"ref", id>>)
                          ELSE IF t.n >= Huge THEN Fail(m, "any")
                          ELSE Push(mm, Frame("arr0", id, t.n, <<>>, <<>>))
    [] t.t = "date0" -> IF DateOk(t.b) THEN Leaf0(m, Node("date", <<>>, t.b)) ELSE Fail(m, "any")
    [] t.t = "xml0" -> LET x == XmlRead(t.b) IN IF x[1] = "doc" THEN Leaf0(m, Node("xml", <<>>, x[2])) ELSE Fail(m, x[1])
    [] t.t = "amf3" -> Push(m, Frame("amf3", 0, 0, <<>>, <<>>))
    [] t.t = "key0" -> LET fr == Top(m) IN
         IF m.nd[fr.id].k = "mixed" /\ MaybeInt(t.b) THEN Fail(m, "any")
         ELSE SetTop(m, [fr EXCEPT !.f = "obj0v", !.k = t.b])
    [] t.t = "end0" -> Deliver(Pop(m), <<"ref", Top(m).id>>)

\* the transition relation
Step(m, t) == CASE t.t = "badmarker" -> Fail(m, "dec")
                [] t.t = "any" -> Fail(m, "any")
                [] OTHER -> IF Ctx(m) \in {"value3", "string3"} THEN Step3(m, t) ELSE Step0(m, t)

\* ------------------------------------------------------------- wire form
Str3(b) == U29(2 * Len(b) + 1) \o b
Ser3(ctx, t) ==
  CASE t.t = "atom" ->
         (CASE t.v[1] = "undef" -> <<0>> [] t.v[1] = "null" -> <<1>>
            [] t.v[1] = "bool" -> (IF t.v[2] THEN <<3>> ELSE <<2>>)
            [] t.v[1] = "int" -> <<4>> \o (IF t.pad = 0 THEN I29(t.v[2])
                   ELSE U29Pad(IF t.v[2] < 0 THEN t.v[2] + 536870912 ELSE t.v[2], t.pad))
            [] t.v[1] = "num" -> <<5>> \o t.v[2]
            [] t.v[1] = "bad" -> <<1>>)
    [] t.t = "s3i" -> (IF ctx = "value3" THEN <<6>> ELSE <<>>) \o Str3(t.b)
    [] t.t = "s3r" -> (IF ctx = "value3" THEN <<6>> ELSE <<>>) \o U29(2 * t.n)
    [] t.t = "o3r" -> <<t.mk>> \o U29(2 * t.n)
    [] t.t = "date3" -> <<8, 1>> \o t.b
    [] t.t = "xml3" -> <<t.mk>> \o Str3(t.b)
    [] t.t = "ba3" -> <<12>> \o Str3(t.b)
    [] t.t = "arr3" -> <<9>> \o U29(2 * t.n + 1)
    [] t.t = "obj3" -> <<10>> \o U29(16 * t.n + 4 * t.enc + 3)
    [] t.t = "obj3t" -> <<10>> \o U29(4 * t.n + 1)
    [] t.t = "badmarker" -> <<t.mk>>
Ser0(t) ==
  CASE t.t = "atom" ->
         (CASE t.v[1] = "undef" -> <<6>> [] t.v[1] = "bool" -> <<1, IF ~t.v[2] THEN 0 ELSE IF t.pad > 0 THEN t.pad ELSE 1>>
            [] t.v[1] = "null" -> <<IF t.pad = 1 THEN 13 ELSE 5>>
            [] t.v[1] = "num0" -> <<0>> \o t.v[2]
            [] t.v[1] = "bad" -> <<5>>)
    [] t.t = "str0" -> IF t.mk = 12 \/ Len(t.b) > 65535 THEN <<12>> \o U32(Len(t.b)) \o t.b
                       ELSE <<2>> \o U16(Len(t.b)) \o t.b
    [] t.t = "ref0" -> <<7>> \o U16(t.n)
    [] t.t = "obj0" -> <<3>>
    [] t.t = "typ0" -> <<16>> \o U16(Len(t.b)) \o t.b
    [] t.t = "mix0" -> <<8>> \o U32(t.n)
    [] t.t = "arr0" -> <<10>> \o U32(t.n)
    [] t.t = "date0" -> <<11>> \o t.b \o t.k
    [] t.t = "xml0" -> <<15>> \o U32(Len(t.b)) \o t.b
    [] t.t = "amf3" -> <<17>>
    [] t.t = "key0" -> U16(Len(t.b)) \o t.b
    [] t.t = "end0" -> <<0, 0, 9>>
    [] t.t = "badmarker" -> <<t.mk>>
Ser(m, t) == IF Ctx(m) \in {"value3", "string3"} THEN Ser3(Ctx(m), t) ELSE Ser0(t)

\* tokens
Atom(v) == [t |-> "atom", v |-> v, pad |-> 0]
AtomP(v, pad) == [t |-> "atom", v |-> v, pad |-> pad]
TokN(t, n) == [t |-> t, n |-> n]
TokB(t, b) == [t |-> t, b |-> b]
TokM(t, mk, b) == [t |-> t, mk |-> mk, b |-> b]
TokR(mk, n) == [t |-> "o3r", mk |-> mk, n |-> n]
Tok(t) == [t |-> t]

\* ------------------------------------------------------------------ lexer
\* Lex(m, s, p) = <<token, position after it>>; the token "more" says that
\* the bytes end before the token does
More == <<Tok("more"), 0>>
Bytes8At(s, p, F(_)) == IF p + 7 > Len(s) THEN More ELSE <<F(Slice(s, p, 8)), p + 8>>
BlobAt(s, p, n, F(_)) == IF p + n - 1 > Len(s) THEN More ELSE <<F(Slice(s, p, n)), p + n>>

LexStr3(s, p) ==
  LET u == U29At(s, p) IN
  IF u[1] = Need THEN More
  ELSE IF (u[1] % 2) = 0 THEN <<TokN("s3r", u[1] \div 2), u[2]>>
  ELSE BlobAt(s, u[2], u[1] \div 2, LAMBDA b : TokB("s3i", b))

LexValue3(s, p) ==
  IF p > Len(s) THEN More ELSE
  LET mk == s[p]
      u == U29At(s, p + 1)
      isref == u[1] # Need /\ (u[1] % 2) = 0
      RefOr(F(_)) == IF u[1] = Need THEN More
                     ELSE IF isref THEN <<TokR(mk, u[1] \div 2), u[2]>>
                     ELSE F(u[1] \div 2)
  IN
  CASE mk = 0 -> <<Atom(<<"undef">>), p + 1>>
    [] mk = 1 -> <<Atom(<<"null">>), p + 1>>
    [] mk = 2 -> <<Atom(<<"bool", FALSE>>), p + 1>>
    [] mk = 3 -> <<Atom(<<"bool", TRUE>>), p + 1>>
    [] mk = 4 -> IF u[1] = Need THEN More
                 ELSE <<AtomP(<<"int", ToI29(u[1])>>,
                              IF Len(U29(u[1])) = u[2] - p - 1 THEN 0 ELSE u[2] - p - 1), u[2]>>
    [] mk = 5 -> Bytes8At(s, p + 1, LAMBDA b : Atom(<<"num", b>>))
    [] mk = 6 -> LexStr3(s, p + 1)
    [] mk \in {7, 11} -> RefOr(LAMBDA n : BlobAt(s, u[2], n, LAMBDA b : TokM("xml3", mk, b)))
    [] mk = 8 -> RefOr(LAMBDA n : Bytes8At(s, u[2], LAMBDA b : TokB("date3", b)))
    [] mk = 9 -> RefOr(LAMBDA n : <<TokN("arr3", n), u[2]>>)
    [] mk = 10 ->
         RefOr(LAMBDA n : IF (n % 2) = 0 THEN <<TokN("obj3t", n \div 2), u[2]>>
                          ELSE <<[t |-> "obj3", enc |-> ((n \div 2) % 4), n |-> n \div 8], u[2]>>)
    [] mk = 12 -> RefOr(LAMBDA n : BlobAt(s, u[2], n, LAMBDA b : TokB("ba3", b)))
    [] OTHER -> <<Tok("badmarker"), p + 1>>

LexValue0(s, p) ==
  IF p > Len(s) THEN More ELSE
  LET mk == s[p]
      h == U16At(s, p + 1)
      w == U32At(s, p + 1)
      Blob(l, F(_)) == IF l[1] = Need THEN More
                       ELSE IF l[1] >= Huge THEN <<Tok("any"), p>>
                       ELSE BlobAt(s, l[2], l[1], F)
      Count(F(_)) == IF w[1] = Need THEN More ELSE <<F(w[1]), w[2]>>
  IN
  CASE mk = 0 -> Bytes8At(s, p + 1, LAMBDA b : Atom(<<"num0", b>>))
    [] mk = 1 -> IF p + 1 > Len(s) THEN More ELSE <<Atom(<<"bool", s[p+1] # 0>>), p + 2>>
    [] mk = 2 -> Blob(h, LAMBDA b : TokM("str0", 2, b))
    [] mk = 3 -> <<Tok("obj0"), p + 1>>
    [] mk = 5 -> <<Atom(<<"null">>), p + 1>>
    [] mk = 6 -> <<Atom(<<"undef">>), p + 1>>
    [] mk = 7 -> IF h[1] = Need THEN More ELSE <<TokN("ref0", h[1]), h[2]>>
    [] mk = 8 -> Count(LAMBDA n : TokN("mix0", n))
    [] mk = 10 -> Count(LAMBDA n : TokN("arr0", n))
    [] mk = 11 -> IF p + 10 > Len(s) THEN More
                  ELSE <<[t |-> "date0", b |-> Slice(s, p + 1, 8), k |-> Slice(s, p + 9, 2)], p + 11>>
    [] mk = 12 -> Blob(w, LAMBDA b : TokM("str0", 12, b))
    [] mk = 13 -> <<AtomP(<<"null">>, 1), p + 1>>
    [] mk = 15 -> Blob(w, LAMBDA b : TokB("xml0", b))
    [] mk = 16 -> Blob(h, LAMBDA b : TokB("typ0", b))
    [] mk = 17 -> <<Tok("amf3"), p + 1>>
    [] OTHER -> <<Tok("badmarker"), p + 1>>

LexKey0(s, p) ==
  LET h == U16At(s, p) IN
  IF h[1] = Need \/ h[2] + h[1] > Len(s) THEN More
  ELSE IF s[h[2] + h[1]] = 9
       THEN IF h[1] = 0 THEN <<Tok("end0"), p + 3>> ELSE <<Tok("any"), p>>
  ELSE <<TokB("key0", Slice(s, h[2], h[1])), h[2] + h[1]>>

Lex(m, s, p) ==
  LET c == Ctx(m) IN
  CASE c = "value3" -> LexValue3(s, p)
    [] c = "string3" -> LexStr3(s, p)
    [] c = "value0" -> LexValue0(s, p)
    [] c = "key0" -> LexKey0(s, p)

\* reading as far as possible: <<state, position of the unread rest, token
\* positions at which the message stood between two elements>>
RECURSIVE Run(_, _, _)
Run(m, s, p) ==
  IF m.err # "" THEN <<m, p>>
  ELSE LET l == Lex(m, s, p) IN
       IF l[1].t = "more" THEN <<m, p>> ELSE Run(Step(m, l[1]), s, l[2])

\* ------------------------------------------------------------ invariants
TypeOK(m) ==
  /\ \A i \in DOMAIN m.o3 : m.o3[i] \in DOMAIN m.nd
  /\ \A i \in DOMAIN m.o0 : m.o0[i] \in DOMAIN m.nd
  \* a node lives in exactly one reference table, once
  /\ \A i, j \in DOMAIN m.o3 : m.o3[i] = m.o3[j] => i = j
  /\ \A i, j \in DOMAIN m.o0 : m.o0[i] = m.o0[j] => i = j
  /\ Range(m.o0) \cap Range(m.o3) = {}
  /\ Range(m.o0) \cup Range(m.o3) = DOMAIN m.nd
  /\ \A i \in DOMAIN m.s3 : m.s3[i] # <<>>
  /\ Len(m.st) >= 1
  \* every node mentioned exists
  /\ \A i \in DOMAIN m.out : m.out[i][1] = "ref" => m.out[i][2] \in DOMAIN m.nd
  /\ \A i \in DOMAIN m.nd :
       /\ \A j \in DOMAIN m.nd[i].d : m.nd[i].d[j][1] = "ref" => m.nd[i].d[j][2] \in DOMAIN m.nd
       /\ \A j \in DOMAIN m.nd[i].e : m.nd[i].e[j][2][1] = "ref" => m.nd[i].e[j][2][2] \in DOMAIN m.nd

\* --------------------------------------------------- comparing two graphs
\* A: read from bytes (by this machine), B: a Python object graph (observed
\* or prescribed).  mode "dec3"/"dec0": B was decoded from A's bytes;
\* "enc3"/"enc0": A's bytes were encoded from B.
IsEnc(mode) == mode \in {"enc3", "enc0"}

LeafEq(mode, a, b) ==
  CASE a[1] = "num0" -> \/ b[1] = "int" /\ DEq(I2D(b[2]), a[2])
                        \/ b[1] = "num" /\ DEq(b[2], a[2])
    [] a[1] = "num" -> \/ b[1] = "num" /\ DSame(a[2], b[2])
                       \/ b[1] = "int" /\ IsEnc(mode) /\ ~IsI29(b[2]) /\ a[2] = I2D(b[2])
    [] a[1] = "int" -> b[1] = "int" /\ a[2] = b[2]
    [] OTHER -> a = b

\* the key under which an entry of node kind k is stored
KeyOf(mode, k, b) ==
  IF k = "mixed" /\ (IsEnc(mode) \/ mode = "dec0") /\ IsDecimal(b)
  THEN <<"i", DecimalToInt(b)>> ELSE <<"k", b>>
NormKey(mode, k, key) ==
  IF key[1] = "k" THEN KeyOf(mode, k, key[2])
  ELSE IF k = "mixed" THEN key ELSE <<"k", IntToDecimal(key[2])>>

\* entries of a node of the wire graph as a function key -> value (a later
\* entry replaces an earlier one, the dense part comes last)
EntriesA(mode, n) ==
  LET E == n.e
      D == IF n.k = "mixed" THEN n.d ELSE <<>>
      K == {KeyOf(mode, n.k, E[i][1]) : i \in DOMAIN E}
      KD == {<<"i", i - 1>> : i \in DOMAIN D}
      Last(k) == CHOOSE i \in DOMAIN E : /\ KeyOf(mode, n.k, E[i][1]) = k
                   /\ \A j \in DOMAIN E : j > i => KeyOf(mode, n.k, E[j][1]) # k
  IN [k \in K \cup KD |-> IF k \in KD THEN D[k[2] + 1] ELSE E[Last(k)][2]]
EntriesB(mode, n) ==
  LET K == {NormKey(mode, n.k, n.e[i][1]) : i \in DOMAIN n.e} IN
  [k \in K |-> n.e[CHOOSE i \in DOMAIN n.e : NormKey(mode, n.k, n.e[i][1]) = k][2]]

\* how many integer keys follow each other from 0 on
DenseB(n) == LET K == {n.e[i][1][2] : i \in {j \in DOMAIN n.e : n.e[j][1][1] = "i"}} IN
             CHOOSE d \in 0..Cardinality(K) : d \notin K /\ \A i \in 0..(d - 1) : i \in K

\* elements in order
ElemsA(A, n) ==
  IF n.k = "mixed" THEN <<>>
  ELSE IF n.k = "ext" /\ n.c = AC THEN A[n.d[1][2]].d     \* the wrapped list
  ELSE n.d
\* dates and XML have no identity in what the AMF0 encoder writes
Loose(mode, k) == mode = "enc0" /\ k \in {"date", "xml"}

FnToSeq(S) == LET RECURSIVE F(_)
                  F(T) == IF T = {} THEN <<>>
                          ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
              IN F(S)

\* "" if the pending pairs (work) of values correspond under the partial
\* bijection mp from nodes of A to nodes of B, else what does not
RECURSIVE Iso(_, _, _, _, _)
Iso(mode, A, B, work, mp) ==
  IF work = <<>> THEN ""
  ELSE
  LET a == Head(work)[1]
      b == Head(work)[2]
      rest == Tail(work)
  IN
  IF (a[1] = "ref") # (b[1] = "ref") THEN "a value is of another type"
  ELSE IF a[1] # "ref" THEN IF LeafEq(mode, a, b) THEN Iso(mode, A, B, rest, mp)
                            ELSE "a value differs"
  ELSE IF a[2] \in DOMAIN mp
       THEN IF mp[a[2]] = b[2] THEN Iso(mode, A, B, rest, mp)
            ELSE "a shared value is not shared"
  ELSE IF ~Loose(mode, A[a[2]].k) /\ \E i \in DOMAIN mp : mp[i] = b[2]
       THEN "different values are shared, or one value was written twice"
  ELSE
  LET na == A[a[2]]
      nb == B[b[2]]
      ea == EntriesA(mode, na)
      eb == EntriesB(mode, nb)
      da == ElemsA(A, na)
      db == nb.d
      ks == FnToSeq(DOMAIN ea)
      pe == [i \in DOMAIN ks |-> <<ea[ks[i]], eb[ks[i]]>>]
      pd == [i \in DOMAIN da |-> <<da[i], db[i]>>]
      ka == IF na.k = "list" /\ nb.k = "mixed" /\ IsEnc(mode) THEN "mixed" ELSE na.k
  IN
  IF na.k = "ext" /\ na.c = AC /\ ~(na.d # <<>> /\ na.d[1][1] = "ref" /\ A[na.d[1][2]].k = "list")
  THEN IF IsEnc(mode) THEN "a collection does not wrap a list" ELSE ""
  ELSE IF na.k # nb.k THEN "a value is of another kind"
  ELSE IF na.c # nb.c THEN "an object is of another class"
  ELSE IF (IF na.k = "date" THEN DateKey(na.b) # DateKey(nb.b) ELSE na.b # nb.b) THEN "the content of a date, document or byte array differs"
  ELSE IF DOMAIN ea # DOMAIN eb THEN "the keys or attributes differ"
  ELSE IF mode = "enc3" /\ nb.k = "mixed" /\ Len(na.d) # DenseB(nb)
  THEN "the dense part of an array has not the elements from 0 on"
  ELSE IF Len(da) # Len(db) THEN "the number of elements differs"
  ELSE Iso(mode, A, B, pe \o pd \o rest, mp @@ (a[2] :> b[2]))

SameGraph(mode, A, outA, B, outB) ==
  IF Len(outA) # Len(outB) THEN "the number of values differs"
  ELSE Iso(mode, A, B, [i \in DOMAIN outA |-> <<outA[i], outB[i]>>], <<>>)

\* nothing is written twice: text, class descriptions (one per class; the
\* anonymous description may be written once for each of two Python types)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Compact(m) == IF m.ds > 0 THEN "text in the table was written again"
              ELSE IF \E c \in Range(m.dt) : Count(m.dt, c) > IF c = <<>> THEN 2 ELSE 1
              THEN "a class was described twice"
              ELSE ""
=============================================================================
