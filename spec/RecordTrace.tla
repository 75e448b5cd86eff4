---- MODULE RecordTrace ----
EXTENDS RecordOps, DetTrace
TStart(tr) == RStart
====
