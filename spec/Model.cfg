SPECIFICATION Spec
CONSTANT Feature = "users"
CONSTANT KV = 2
CONSTANT Slots = 2
INVARIANT Unique
INVARIANT LoginExact
INVARIANT HistoryExact
INVARIANT LookupExact
INVARIANT ChallengeExact
PROPERTY Isolation
CHECK_DEADLOCK FALSE
