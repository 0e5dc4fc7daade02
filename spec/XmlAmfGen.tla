----------------------------- MODULE XmlAmfGen -----------------------------
(* AMFGen with documents of all kinds.                                      *)
EXTENDS AMFGen, XmlDocs
More3 == <<"xml", "xml", "xml", "xml", "ref", "ref", "str", "int", "arr", "arr", "mix", "obj", "obj", "objr", "ext">>
More0 == <<"xml", "xml", "xml", "xml", "ref", "str", "num", "arr", "arr", "mix", "obj", "typ", "amf3", "amf3">>
Few3 == <<"xml", "xml", "null", "ref">>
Few0 == <<"xml", "xml", "null", "ref">>
=============================================================================
