---- MODULE VirtTrace ----
EXTENDS VirtOps, DetTrace
TStart(tr) == VStart
====
