SPECIFICATION Spec
CONSTANTS Alphabet <- AlphaVal
 Cps <- CpsVal
 MaxLen = 3
 MaxCp = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
