------------------------------- MODULE XmlDocs -----------------------------
(* Documents that have been read already: DOCS is a file of documents (w)   *)
(* and what the reader finds in them.                                       *)
EXTENDS Xml, Json, IOUtils
CONSTANTS ForbidDtd, ForbidEnts
Docs == ndJsonDeserialize(IOEnv.DOCS)
Known == LET d == TLCEval(Docs) IN
         TLCEval([x \in {d[i].w : i \in DOMAIN d} |-> d[CHOOSE i \in DOMAIN d : d[i].w = x].found])
WidePool == LET d == TLCEval(Docs) IN TLCEval([i \in DOMAIN d |-> d[i].w])
AnyXml(b) == Decide(IF b \in DOMAIN Known THEN Known[b] ELSE ReadXml(b), ForbidDtd, ForbidEnts)
=============================================================================
