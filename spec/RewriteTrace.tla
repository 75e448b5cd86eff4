---- MODULE RewriteTrace ----
EXTENDS RewriteOps, DetTrace
TStart(tr) == QStart
====
