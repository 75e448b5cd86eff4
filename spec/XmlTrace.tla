---------------------------- MODULE XmlTrace ----------------------------
EXTENDS XmlOps, DetTrace
XStart(tr) == 0
=============================================================================
