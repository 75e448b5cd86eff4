---- MODULE CqlTrace ----
EXTENDS CqlOps, DetTrace
TStart(tr) == KStart
====
