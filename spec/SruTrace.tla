---- MODULE SruTrace ----
EXTENDS SruOps, DetTrace
TStart(tr) == SStart
====
