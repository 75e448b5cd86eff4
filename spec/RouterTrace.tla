---------------------------- MODULE RouterTrace ----------------------------
EXTENDS RouterOps, DetTrace
RStart(tr) == RtStart(tr.kind, tr.routes, tr.start)
=============================================================================
