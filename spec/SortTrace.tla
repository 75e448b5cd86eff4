---- MODULE SortTrace ----
EXTENDS SortOps, DetTrace
TStart(tr) == SStart
====
