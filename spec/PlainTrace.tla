---- MODULE PlainTrace ----
EXTENDS PlainOps, DetTrace
TStart(tr) == YStart
====
