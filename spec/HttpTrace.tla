---- MODULE HttpTrace ----
EXTENDS HttpOps, DetTrace
TStart(tr) == GStart
====
