---- MODULE ChunkTrace ----
EXTENDS ChunkOps, DetTrace
TStart(tr) == CStart
====
