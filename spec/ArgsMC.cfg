SPECIFICATION Spec
INVARIANT Lemmas
CHECK_DEADLOCK FALSE
