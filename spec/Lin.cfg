SPECIFICATION Spec
CONSTRAINT Note
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
