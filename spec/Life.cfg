SPECIFICATION Spec
INVARIANTS Unique Current Lookups NoLoss First Refused Authorised History Deleted StaysOff
CHECK_DEADLOCK FALSE
