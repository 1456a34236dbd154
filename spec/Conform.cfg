SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NoPanic AcceptOK ApiOK NoLookahead DeadOK LiveOK EmptyOK NextByteOK LiteralForced ClassOK
