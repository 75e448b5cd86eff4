---------------------------- MODULE UrlTrace ----------------------------
EXTENDS UrlOps, DetTrace
UStart(tr) == 0
=============================================================================
