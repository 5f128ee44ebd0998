SPECIFICATION Spec
INVARIANTS OneEntryPerKey Lookups
CHECK_DEADLOCK FALSE
