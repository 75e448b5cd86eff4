---- MODULE LinkTrace ----
EXTENDS LinkOps, DetTrace
TStart(tr) == LStart
====
