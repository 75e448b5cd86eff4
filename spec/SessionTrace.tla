---------------------------- MODULE SessionTrace ----------------------------
EXTENDS SessionOps, DetTrace
SStart(tr) == SesStart
=============================================================================
