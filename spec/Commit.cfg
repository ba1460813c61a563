SPECIFICATION Spec
INVARIANTS KillSafe CrashSafe Durable Whole
CHECK_DEADLOCK FALSE
