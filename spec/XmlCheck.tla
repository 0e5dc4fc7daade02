----------------------------- MODULE XmlCheck -----------------------------
EXTENDS AMFCheck, XmlDocs
=============================================================================
