---- MODULE TestTrace ----
EXTENDS TestOps, DetTrace
TStart(tr) == BTStart
====
