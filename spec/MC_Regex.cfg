SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ResidualOK PositiveOK NonEmptyOK
