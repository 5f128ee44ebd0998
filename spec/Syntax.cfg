SPECIFICATION Spec
INVARIANTS ReadsBack Derivable Together
CHECK_DEADLOCK FALSE
