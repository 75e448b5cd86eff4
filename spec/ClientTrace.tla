---- MODULE ClientTrace ----
EXTENDS ClientOps, DetTrace
TStart(tr) == ZcStart
====
