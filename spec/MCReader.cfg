SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 2 MaxG = 2 MaxP = 2
