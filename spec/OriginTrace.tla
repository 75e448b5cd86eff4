---------------------------- MODULE OriginTrace ----------------------------
EXTENDS OriginOps, DetTrace
OStart(tr) == OgStart
=============================================================================
