---------------------------- MODULE FlexTrace ----------------------------
EXTENDS FlexOps, DetTrace
FStart(tr) == FxStart
=============================================================================
