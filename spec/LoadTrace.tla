---- MODULE LoadTrace ----
EXTENDS LoadOps, DetTrace
TStart(tr) == LStart
====
