---- MODULE MultiTrace ----
EXTENDS MultiOps, DetTrace
TStart(tr) == MStart
====
