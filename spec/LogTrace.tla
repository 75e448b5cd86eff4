---- MODULE LogTrace ----
EXTENDS LogOps, DetTrace
TStart(tr) == LgStart
====
