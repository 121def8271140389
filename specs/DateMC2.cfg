SPECIFICATION Spec
CONSTANTS Years <- YearsBig
 Hours <- HoursBig
INVARIANT Laws
CHECK_DEADLOCK FALSE
