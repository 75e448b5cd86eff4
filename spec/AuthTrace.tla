---- MODULE AuthTrace ----
EXTENDS AuthOps, DetTrace
TStart(tr) == AStart
====
