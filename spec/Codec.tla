-------------------------------- MODULE Codec -------------------------------
(* Several encoders and decoders that are alive at once.  Each has a machine *)
(* of AMF.tla of its own, which holds the reference tables of the message    *)
(* that it is in the middle of.  An encoder also has a bucket of what waits  *)
(* to be encoded (an item is one value, or several that a generator yields), *)
(* a decoder the bytes it was fed.                                           *)
EXTENDS AMF
NewEnc(v) == [v |-> v, q |-> <<>>, fed |-> <<>>, out |-> <<>>, m |-> Start(v), vals |-> <<>>, broken |-> FALSE]
NewDec(v) == [v |-> v, s |-> <<>>, p |-> 1, m |-> Start(v), dead |-> FALSE]

\* ------------------------------------------------------------------ encoders
\* B: which values cannot be encoded
Fed(e, item) == [e EXCEPT !.q = Append(@, item), !.fed = Append(@, item)]
\* the chunk of bytes that was handed out for an item
Took(e, item, bytes) == [e EXCEPT !.m = Run(e.m, bytes, 1)[1], !.vals = @ \o item]
Popped(e) == [e EXCEPT !.q = Tail(@), !.out = Append(@, Head(e.q))]
EncCleared(e) == [e EXCEPT !.m = Start(e.v), !.vals = <<>>, !.broken = FALSE]
WhyChunk(e, item, bytes) ==
  LET r == Run(e.m, bytes, 1) IN
  IF r[1].err # "" THEN "what was handed out does not continue the message (" \o r[1].err \o ")"
  ELSE IF r[2] # Len(bytes) + 1 \/ ~AtTop(r[1]) THEN "what was handed out is not made of whole values"
  ELSE IF Len(r[1].out) # Len(e.m.out) + Len(item) THEN "another number of values was handed out"
  ELSE ""
\* the message that ends here
WhyMessage(mode, m, nd, vals) ==
  LET g == SameGraph(mode, m.nd, m.out, nd, vals) IN
  IF g # "" THEN g ELSE Compact(m)

\* ------------------------------------------------------------------ decoders
\* the next whole value: <<machine, position>>, or <<>> if there is none yet
RECURSIVE Whole_(_, _, _, _)
Whole_(m, s, p, k) ==
  IF Len(m.out) > k THEN <<m, p>>
  ELSE IF m.err # "" THEN <<>>
  ELSE LET l == Lex(m, s, p) IN IF l[1].t = "more" THEN <<>> ELSE Whole_(Step(m, l[1]), s, l[2], k)
WholeNext(d) == Whole_(d.m, d.s, d.p, Len(d.m.out))
DecFed(d, b) == [d EXCEPT !.s = @ \o b]
\* (one that came upon an error is of no use until it is cleared)
TakeOf(d) ==
  LET w == WholeNext(d)
      e == Run(d.m, d.s, d.p)[1].err IN
  IF w # <<>> THEN [d |-> [d EXCEPT !.m = w[1], !.p = w[2]], r |-> "value"]
  ELSE IF e # "" THEN [d |-> [d EXCEPT !.dead = TRUE], r |-> e]
  ELSE [d |-> d, r |-> IF d.p > Len(d.s) THEN "eos" ELSE "io"]
Exhausted(d) == d.p = Len(d.s) + 1
DecCleared(d) == [d EXCEPT !.m = Start(d.v), !.p = Len(d.s) + 1, !.dead = FALSE]
=============================================================================
