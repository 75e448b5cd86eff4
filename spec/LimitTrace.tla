---- MODULE LimitTrace ----
EXTENDS LimitOps, DetTrace
TStart(tr) == MStart
====
