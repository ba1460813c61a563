SPECIFICATION Spec
INVARIANTS NoDeadlock NoTornRead Unique NotLost Once Justified Final
CHECK_DEADLOCK FALSE
