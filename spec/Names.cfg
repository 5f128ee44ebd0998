SPECIFICATION Spec
INVARIANTS Final2 KeepsLetters SameWords Apart
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
