------------------------------ MODULE Registry -----------------------------
(* The registry of class aliases.                                           *)
(*                                                                          *)
(* r = [byA |-> aliases to registrations, byC |-> classes to registrations, *)
(*      loaders |-> set of class loaders, types |-> alias types]            *)
(* A registration is [c |-> class, a |-> alias ("" if anonymous),           *)
(*                    t |-> alias type (0: the standard one),               *)
(*                    n |-> which registration of class 11 this is].        *)
(* done: the registrations of class 11 that have been in use.               *)
(*                                                                          *)
(* Classes 1..4 are plain (3 is old style, 4 declares the alias m.D         *)
(* itself), 5 and 6 live in the module vmod (6 behind a ready made alias),  *)
(* 7 and 8 come from class loaders (8 as a ready made alias), 9 and 10 are  *)
(* defined in the module vpkg; 11 is derived from 1.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Classes == 1..11
Meta(c) == IF c = 4 THEN "m.D" ELSE ""
Name(c) == <<"K1", "K2", "K3", "K4", "M", "Q", "L1", "L2", "N", "O", "K11">>[c]
Empty == [x \in {} |-> 0]
Start == [byA |-> Empty, byC |-> Empty, loaders |-> {}, types |-> <<0, 0>>, done |-> {}, n |-> 0]
Has(f, k) == k \in DOMAIN f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* an alias type is for a class and what is derived from it, or (100 + c) for
\* what a function says
For(x, c) == x = c \/ x = 100 + c \/ (x = 1 /\ c = 11)
Type(r, c) == IF \E s \in 1..2 : For(r.types[s], c) THEN CHOOSE s \in 1..2 : For(r.types[s], c) ELSE 0
Reg(c, a, t) == [c |-> c, a |-> a, t |-> t, n |-> 0]
Put0(r, g) == [r EXCEPT !.byA = IF g.a = "" THEN @ ELSE (g.a :> g) @@ @, !.byC = (g.c :> g) @@ @]
Put(r, g) == IF g.c # 11 THEN Put0(r, g)
             ELSE [Put0(r, [g EXCEPT !.n = r.n + 1]) EXCEPT !.n = @ + 1]
\* the alias under which a class is registered if none is given
AliasFor(c, a) == IF a = "" THEN Meta(c) ELSE a
Register(r, c, a) == Put(r, Reg(c, AliasFor(c, a), Type(r, c)))
\* when a class is used for the first time, its base class becomes known
Base(r) == IF Has(r.byC, 1) THEN r ELSE Register(r, 1, "")
Use(r, g) == IF g.c # 11 \/ g.n \in r.done THEN r ELSE Base([r EXCEPT !.done = @ \cup {g.n}])
\* undoes one registration; what was registered since is left alone
Remove(r, g) ==
  [r EXCEPT !.byA = IF Has(@, g.a) /\ @[g.a].c = g.c THEN Without(@, g.a) ELSE @,
            !.byC = IF Has(@, g.c) /\ @[g.c].a = g.a THEN Without(@, g.c) ELSE @]

\* what loaders and modules know: class and whether a ready made alias
Offers(l) == CASE l = 1 -> "l.F" [] l = 2 -> "l.G" [] l = 3 -> "l.X" [] l = 4 -> "l.Y" [] OTHER -> "?"
Answering(r, a) == {l \in r.loaders : Offers(l) = a}
Res(r, err, g) == [r |-> r, err |-> err, g |-> g]
NoReg == Reg(0, "", 0)
Found(r, g) == Res(Put(r, g), "", g)
Resolve(r, a) ==
  IF Has(r.byA, a) THEN Res(r, "", r.byA[a])
  ELSE IF Answering(r, a) # {}
  THEN LET l == CHOOSE l \in Answering(r, a) : TRUE IN
       CASE l = 1 -> Found(r, Reg(7, a, Type(r, 7)))
         [] l = 2 -> Found(r, Reg(8, a, 0))
         [] l = 3 -> Res(r, "TypeError", NoReg)
         [] l = 4 -> Res(r, "ValueError", NoReg)
  ELSE CASE a = "vmod.M" -> Found(r, Reg(5, a, Type(r, 5)))
         [] a = "vmod.R" -> Found(r, Reg(6, a, 0))
         [] a = "vmod.f" -> Res(r, "TypeError", NoReg)
         [] OTHER -> Res(r, "unk", NoReg)

\* which classes of the module a package registration takes:
\* o.all: "" or the only name exported; o.strict; o.ignore: names left out
InModule == {1, 9, 10}
Taken(o) == {c \in InModule : /\ (o.strict /\ o.kind # "list" => c \in {9, 10})
                              /\ (o.all = "" \/ o.kind = "list" \/ Name(c) = o.all)
                              /\ Name(c) \notin {o.ignore[i] : i \in DOMAIN o.ignore}}
Package(o) == IF o.pkg = "" THEN "vpkg" ELSE o.pkg
PackAlias(o, c) == Package(o) \o o.sep \o Name(c)
RECURSIVE RegisterAll(_, _, _)
RegisterAll(r, S, o) == IF S = {} THEN r ELSE
  LET c == CHOOSE c \in S : TRUE IN RegisterAll(Register(r, c, PackAlias(o, c)), S \ {c}, o)

\* ---------------------------------------------------------------- operations
\* ret: what the caller gets: <<class, alias, alias type>>; "used": loaders
\* that were asked (a set between lo and hi)
Out(r, err, ret) == [r |-> r, err |-> err, ret |-> ret]
Tell(g) == <<g.c, g.a, g.t>>
Do(r, o) ==
  CASE o.op = "reg" -> LET r2 == Register(r, o.c, o.a) IN Out(r2, "", Tell(r2.byC[o.c]))
    [] o.op = "unregA" -> IF Has(r.byA, o.a) THEN Out(Remove(r, r.byA[o.a]), "", Tell(r.byA[o.a])) ELSE Out(r, "unk", <<>>)
    [] o.op = "unregC" -> IF Has(r.byC, o.c) THEN Out(Remove(r, r.byC[o.c]), "", Tell(r.byC[o.c])) ELSE Out(r, "unk", <<>>)
    [] o.op = "getC" -> IF Has(r.byC, o.c) THEN Out(r, "", Tell(r.byC[o.c])) ELSE Out(r, "unk", <<>>)
    [] o.op = "getA" -> LET x == Resolve(r, o.a) IN Out(x.r, x.err, IF x.err = "" THEN Tell(x.g) ELSE <<>>)
    \* an instance arrives
    [] o.op = "dec" -> LET x == Resolve(r, o.a) IN
         IF x.err = "unk" /\ ~o.strict THEN Out(x.r, "", <<0, o.a>>)      \* a placeholder
         ELSE IF x.err # "" THEN Out(x.r, x.err, <<>>)
         ELSE Out(Use(x.r, x.g), "", <<x.g.c, x.g.t>>)
    \* an instance is sent
    [] o.op = "enc" ->
         IF Has(r.byC, o.c) THEN Out(Use(r, r.byC[o.c]), "", <<r.byC[o.c].a, r.byC[o.c].t>>)
         ELSE Out(IF o.c = 11 THEN Base(r) ELSE r, "", <<Meta(o.c), Type(r, o.c)>>)
    [] o.op = "load" -> Out([r EXCEPT !.loaders = @ \cup {o.l}], "", <<>>)
    [] o.op = "unload" -> IF o.l \in r.loaders THEN Out([r EXCEPT !.loaders = @ \ {o.l}], "", <<>>)
                          ELSE Out(r, "LookupError", <<>>)
    [] o.op = "badload" -> Out(r, "TypeError", <<>>)
    [] o.op = "type" -> IF ~o.fn /\ \E s \in 1..2 : r.types[s] = o.c THEN Out(r, "RuntimeError", <<>>)
         ELSE LET x == IF o.fn THEN 100 + o.c ELSE o.c
                  up(g) == IF ~For(x, g.c) THEN g ELSE [g EXCEPT !.t = o.s, !.n = IF g.c = 11 THEN -1 ELSE 0]
                  r2 == [r EXCEPT !.types[o.s] = x, !.done = @ \cup {-1},
                                  !.byA = [k \in DOMAIN @ |-> up(@[k])], !.byC = [k \in DOMAIN @ |-> up(@[k])]]
                  \* they are in use at once
                  both == {r.byA[k].c : k \in DOMAIN r.byA} \cup DOMAIN r.byC
              IN Out(IF 11 \in both /\ For(x, 11) THEN Base(r2) ELSE r2, "", <<>>)
    [] o.op = "untype" -> Out([r EXCEPT !.types[o.s] = 0], "", <<>>)
    [] o.op = "pack" -> Out(RegisterAll(r, Taken(o), o), "", <<>>)

\* an alias type is registered for one class at a time
Allowed(r, o) == o.op = "type" =>
  \/ ~o.fn /\ \E s \in 1..2 : r.types[s] = o.c
  \/ /\ r.types[o.s] = 0
     /\ \A c \in Classes : For(IF o.fn THEN 100 + o.c ELSE o.c, c) => Type(r, c) = 0

\* loaders are asked only about aliases that are not registered, and all of
\* them before an alias is given up
Asks(r, o) == o.op \in {"getA", "dec"} /\ ~Has(r.byA, o.a)
UsedOk(r, o, used) ==
  IF ~Asks(r, o) THEN used = {}
  ELSE IF Answering(r, o.a) = {} THEN used = r.loaders
  ELSE used \subseteq r.loaders /\ Answering(r, o.a) \cap used # {}

\* ---------------------------------------------------------------- properties
\* keys and registrations agree
Sound(r) == /\ \A a \in DOMAIN r.byA : r.byA[a].a = a
            /\ \A c \in DOMAIN r.byC : r.byC[c].c = c
\* a failed operation changes nothing; unregistering makes the registration
\* unknown; registering makes it known in both directions
Effects(r, o) ==
  LET d == Do(r, o) IN
  /\ d.err # "" => d.r = r
  /\ (o.op = "reg") => (Has(d.r.byC, o.c) /\ (AliasFor(o.c, o.a) # "" => d.r.byA[AliasFor(o.c, o.a)].c = o.c))
  /\ (o.op = "unregA" /\ d.err = "") => ~Has(d.r.byA, o.a)
  /\ (o.op = "unregC" /\ d.err = "") => ~Has(d.r.byC, o.c)
  /\ (o.op \in {"enc", "getC"}) => /\ d.r.byA = r.byA
                                   /\ \A c \in DOMAIN r.byC : d.r.byC[c] = r.byC[c]
  /\ \A a \in DOMAIN r.byA : (o.op \in {"dec", "getA"}) => d.r.byA[a] = r.byA[a]
=============================================================================
