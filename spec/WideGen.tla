------------------------------ MODULE WideGen ------------------------------
(* AMFGen with large tables: a behaviour begins with many values of one     *)
(* kind (or one large value), so that what follows refers to entries far    *)
(* into the reference tables, and lengths and counts take several bytes.    *)
(* A tape: budget, further values, kind, how many, variant, choices.        *)
EXTENDS AMFGen

Kind == Tapes[c][3]
Many == Tapes[c][4]
Sub  == Tapes[c][5]
InList == (Sub % 2) = 0      \* everything is in one list, or side by side
Sub2 == Sub \div 2

Text(i) == <<120>> \o Digits3(i)
Attr(i) == <<115>> \o Digits3(i)
Alt(i, q) == Pick(q, i)

\* text of n bytes, made of characters of w bytes
Chars == << <<97>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>> >>
LongText(n, w) == LET ch == Chars[w] IN TLCEval(
  [i \in 1..n |-> IF i > n - (n % w) THEN 98 ELSE ch[1 + ((i - 1) % w)]])
Lengths3 == <<62, 63, 64, 65, 127, 128, 8190, 8191, 8192, 8193>>
Lengths0 == <<127, 128, 255, 256, 257, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 70000>>

Flat(E(_), n, l) == [q \in 1..(n * l) |-> E(1 + ((q - 1) \div l))[1 + ((q - 1) % l)]]

InBase == IF InList THEN 1 ELSE 0
None == TokB("s3i", <<>>)
Null == Atom(<<"null">>)
\* <<tokens, how many values they are>>
Pre3 ==
  LET n == Many IN
  CASE Kind = 1 -> <<Flat(LAMBDA i : <<TokB("s3i", Text(i))>>, n, 1), n>>
    [] Kind = 2 -> <<Flat(LAMBDA i : <<TokN("arr3", 0), None>>, n, 2), n>>
    [] Kind = 3 -> <<Flat(LAMBDA i : <<[t |-> "obj3", enc |-> 2, n |-> 0], TokB("s3i", WC(i % 200)), None>>, n, 3), n>>
    [] Kind = 4 -> \* objects of many classes, each class twice
         <<Flat(LAMBDA i : <<[t |-> "obj3", enc |-> 2, n |-> 0], TokB("s3i", WC(i % 200)), None,
                             TokN("obj3t", i - 1), TokB("s3i", Text(i)), Atom(<<"int", i>>), None>>, n, 7), 2 * n>>
    [] Kind = 5 -> <<Flat(LAMBDA i : <<TokB("ba3", <<i % 256, i \div 256>>)>>, n, 1), n>>
    [] Kind = 6 -> <<<<TokN("arr3", n), None>> \o Flat(LAMBDA i : <<Atom(<<"int", i>>)>>, n, 1), 1>>
    [] Kind = 7 -> \* one object with many static attributes
         <<<<[t |-> "obj3", enc |-> Alt(Sub2, <<0, 2>>), n |-> n],
             TokB("s3i", IF Enc \/ ((Sub2 \div 2) % 2) = 0 THEN SC(n) ELSE <<>>)>>
           \o Flat(LAMBDA i : <<TokB("s3i", Attr(i))>>, n, 1)
           \o Flat(LAMBDA i : <<Atom(<<"int", i>>)>>, n, 1)
           \o (IF (Sub2 % 2) = 1 THEN <<None>> ELSE <<>>), 1>>
    [] Kind = 8 -> \* one with many others
         <<<<[t |-> "obj3", enc |-> 2, n |-> 0], TokB("s3i", Alt(Sub2, <<<<>>, TA>>))>>
           \o Flat(LAMBDA i : <<TokB("s3i", Attr(i)), Atom(<<"int", i>>)>>, n, 2) \o <<None>>, 1>>
    [] Kind = 9 -> <<Flat(LAMBDA i : <<TokN("arr3", 1), None>>, 1 + (n % 60), 2) \o <<Null>>, 1>>
    [] Kind = 10 -> <<<<TokB("s3i", LongText(Alt(Many, Lengths3), 1 + (Sub2 % 4)))>>, 1>>
    [] Kind = 11 -> <<<<TokB("ba3", LongText(Alt(Many, Lengths3), 1 + (Sub2 % 4)))>>, 1>>
    [] Kind = 12 -> \* everything twice
         <<Flat(LAMBDA i : <<TokN("arr3", 0), None, TokR(9, InBase + i - 1)>>, n, 3), 2 * n>>
    [] Kind = 13 -> \* a mixed array
         <<<<TokN("arr3", n \div 2)>> \o Flat(LAMBDA i : <<TokB("s3i", Attr(i)), Atom(<<"int", i>>)>>, n, 2) \o <<None>>
           \o Flat(LAMBDA i : <<Null>>, n \div 2, 1), 1>>
    [] Kind = 14 -> \* dates
         <<Flat(LAMBDA i : <<TokB("date3", Pick(DatePool, i))>>, n, 1), n>>
Pre0 ==
  LET n == Many IN
  CASE Kind \in {1, 10, 11} -> <<<<TokM("str0", 2, LongText(Alt(Many, Lengths0), 1 + (Sub2 % 4)))>>, 1>>
    [] Kind \in {2, 14} -> <<Flat(LAMBDA i : <<TokN("arr0", 0)>>, n, 1), n>>
    [] Kind \in {3, 4} -> <<Flat(LAMBDA i : <<TokB("typ0", WC(i % 200)), Tok("end0")>>, n, 2), n>>
    [] Kind = 5 -> <<Flat(LAMBDA i : <<Tok("amf3"), TokB("ba3", <<i % 256, i \div 256>>)>>, n, 2), n>>
    [] Kind = 6 -> <<<<TokN("arr0", n)>> \o Flat(LAMBDA i : <<Null>>, n, 1), 1>>
    [] Kind \in {7, 8} -> <<<<IF (Sub2 % 2) = 0 THEN Tok("obj0") ELSE TokB("typ0", IF Enc /\ Kind = 7 THEN SC(n) ELSE TB)>>
                      \o Flat(LAMBDA i : <<TokB("key0", Attr(i)), Null>>, n, 2) \o <<Tok("end0")>>, 1>>
    [] Kind = 9 -> <<Flat(LAMBDA i : <<TokN("arr0", 1)>>, 1 + (n % 60), 1) \o <<Null>>, 1>>
    [] Kind = 12 -> <<Flat(LAMBDA i : <<TokN("arr0", 0), TokN("ref0", InBase + i - 1)>>, n, 2), 2 * n>>
    [] Kind = 13 -> <<<<TokN("mix0", n)>> \o Flat(LAMBDA i : <<TokB("key0", Attr(i)), Null>>, n, 2) \o <<Tok("end0")>>, 1>>

RECURSIVE Fold(_, _, _)
Fold(a, toks, i) ==     \* a = <<m, bytes, ends>>
  IF i > Len(toks) THEN a
  ELSE LET mm == Step(a[1], toks[i])
           b2 == a[2] \o Ser(a[1], toks[i])
       IN Fold(<<mm, b2, IF Len(mm.out) > Len(a[1].out) THEN Append(a[3], Len(b2)) ELSE a[3]>>, toks, i + 1)
Pre == IF V = 3 THEN Pre3 ELSE Pre0
Extra == Tapes[c][2]
WNtop == IF InList THEN 1 ELSE Pre[2] + Extra
Toks == LET p == Pre IN
        (IF ~InList THEN <<>> ELSE IF V = 3 THEN <<TokN("arr3", p[2] + Extra), None>> ELSE <<TokN("arr0", p[2] + Extra)>>)
        \o p[1]
WInit == /\ c \in 1..N
         /\ j = 5 /\ ph = "go"
         /\ LET a == Fold(<<Start(V), <<>>, <<>>>>, Toks, 1)
            IN m = a[1] /\ bs = a[2] /\ ends = a[3]
WSpec == WInit /\ [][Next]_vars
WKinds3 == <<"null", "int", "rint", "str", "sref", "sref", "ref", "ref", "ref", "ref", "arr", "mix", "obj", "objr",
             "objr", "objr", "ext", "date">>
WKinds0 == <<"null", "num", "rnum", "str", "ref", "ref", "ref", "ref", "arr", "mix", "obj", "typ", "amf3", "amf3", "date">>
=============================================================================
