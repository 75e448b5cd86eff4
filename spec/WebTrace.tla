---- MODULE WebTrace ----
EXTENDS WebOps, DetTrace
TStart(tr) == WStart
====
