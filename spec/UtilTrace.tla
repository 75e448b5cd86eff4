---- MODULE UtilTrace ----
EXTENDS UtilOps, DetTrace
UStart(tr) == 0
====
