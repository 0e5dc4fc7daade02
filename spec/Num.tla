-------------------------------- MODULE Num --------------------------------
(* Numbers on the wire, and what must not matter: the history.              *)
(*                                                                          *)
(* Several encoders of both protocols are given numbers in turn.  A number  *)
(* is [ty, v]: the kind of Python number ("int", "long", "float", "bool")   *)
(* and its value <<"int", n>>, |n| < 2^31, or <<"num", bytes of a double>>. *)
(* Its wire form is a function of the number alone.                         *)
EXTENDS Bytes

Dbl(x) == IF x.v[1] = "int" THEN I2D(x.v[2]) ELSE x.v[2]
Wire3(x) ==
  CASE x.ty = "bool" -> (IF x.v[2] = 1 THEN <<3>> ELSE <<2>>)
    [] x.ty = "float" -> <<5>> \o Dbl(x)
    [] x.v[1] = "int" /\ IsI29(x.v[2]) -> <<4>> \o I29(x.v[2])
    [] OTHER -> <<5>> \o Dbl(x)
Wire0(x) == IF x.ty = "bool" THEN <<1, x.v[2]>> ELSE <<0>> \o Dbl(x)
Wire(p, x) == IF p = 3 THEN Wire3(x) ELSE Wire0(x)

\* observed bytes: any NaN will do for a NaN
SameWire(a, b) == \/ a = b
                  \/ /\ Len(a) = 9 /\ Len(b) = 9 /\ a[1] = b[1]
                     /\ DSame(Slice(a, 2, 8), Slice(b, 2, 8))

\* what reading it back gives: [ty, v]
ReadsAs(p, x, y) ==
  CASE x.ty = "bool" -> y.ty = "bool" /\ y.v = x.v
    [] p = 3 /\ x.ty # "float" /\ x.v[1] = "int" /\ IsI29(x.v[2]) ->
         y.ty = "int" /\ y.v = x.v
    [] p = 3 -> y.ty = "float" /\ y.v[1] = "num" /\ DSame(Dbl(x), y.v[2])
    [] OTHER -> y.ty \in {"int", "float"} /\ DEq(Dbl(x), Dbl(y))
=============================================================================
