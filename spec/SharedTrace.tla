---- MODULE SharedTrace ----
EXTENDS SharedOps, DetTrace
TStart(tr) == ZStart
====
