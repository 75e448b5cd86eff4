---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS FactoryOps, DetTrace
FStart(tr) == FaStart
=============================================================================
