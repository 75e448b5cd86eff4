---- MODULE CgiTrace ----
EXTENDS CgiOps, DetTrace
TStart(tr) == GStart
====
