SPECIFICATION Spec
INVARIANT Emit
INVARIANT Exclusive
INVARIANT InRange
INVARIANT RoundTrip
INVARIANT Nested
CHECK_DEADLOCK FALSE
