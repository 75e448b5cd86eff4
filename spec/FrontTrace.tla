---- MODULE FrontTrace ----
EXTENDS FrontOps, DetTrace
TStart(tr) == FStart
====
