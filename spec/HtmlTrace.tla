---------------------------- MODULE HtmlTrace ----------------------------
EXTENDS HtmlOps, DetTrace
HStart(tr) == 0
=============================================================================
