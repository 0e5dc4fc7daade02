-------------------------------- MODULE Proc --------------------------------
(* Post-decode processors: a list of them, and decoders that hand every     *)
(* whole element through the list.  What a processor gets and returns is a  *)
(* term over the element as it was decoded: <<"raw">>, <<"none">>, or       *)
(* <<"box", p, term>> (wrapped by processor p).  Each decoder has a counter *)
(* that the processors share (the `extra' of its context).                  *)
EXTENDS Codec
Kinds == <<"same", "box", "none", "fail", "count">>
\* the chain: [t: term so far, n: counter, log: calls <<p, term, counter>>, ok]
RECURSIVE Chain(_, _, _)
Chain(kind, ps, s) ==
  IF ps = <<>> \/ ~s.ok THEN s
  ELSE LET p == Head(ps)
           n == IF kind[p] = "count" THEN s.n + 1 ELSE s.n
           t == CASE kind[p] = "box" -> <<"box", p, s.t>> [] kind[p] = "none" -> <<"none">> [] OTHER -> s.t
       IN Chain(kind, Tail(ps), [t |-> t, n |-> n, log |-> Append(s.log, <<p, s.t, n>>), ok |-> kind[p] # "fail"])
Through(kind, ps, n) == Chain(kind, ps, [t |-> <<"raw">>, n |-> n, log |-> <<>>, ok |-> TRUE])
Without(ps, p) == LET i == CHOOSE i \in DOMAIN ps : ps[i] = p /\ \A j \in DOMAIN ps : ps[j] = p => i <= j
                  IN SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
In(ps, p) == \E i \in DOMAIN ps : ps[i] = p
=============================================================================
