---- MODULE PoolTrace ----
EXTENDS PoolOps, DetTrace
TStart(tr) == PStart
====
