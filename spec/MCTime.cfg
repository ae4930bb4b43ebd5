SPECIFICATION Spec
INVARIANTS InRange RoundTrip AtEpoch Emit
PROPERTIES LeapStep WeekStep
