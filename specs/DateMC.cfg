SPECIFICATION Spec
CONSTANTS Years <- YearsVal
 Hours <- HoursVal
INVARIANT Laws
CHECK_DEADLOCK FALSE
