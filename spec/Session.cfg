SPECIFICATION Spec
CONSTANT Unset = Unset
INVARIANTS IsByteSized RoundTrip SizeProtocol BadMeansBad SplitInSight Spelling
CHECK_DEADLOCK FALSE
