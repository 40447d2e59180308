SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxM = 3 MaxChunk = 2
CONSTRAINT Small
INVARIANTS CompleteMeansWhole NeverCompleteIfDamaged ValidNeverFails NothingPastTheEnd
PROPERTIES Monotone CompletionSticks Progress
CHECK_DEADLOCK FALSE
