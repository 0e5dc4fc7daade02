---------------------------- MODULE XmlEnvCheck ----------------------------
EXTENDS EnvelopeCheck, XmlDocs
=============================================================================
