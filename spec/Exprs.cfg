SPECIFICATION Spec
INVARIANTS FieldsInType TextDenotes ResultsInType
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
