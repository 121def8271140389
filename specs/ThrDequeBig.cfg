SPECIFICATION Spec
CONSTANTS
  NJobs = 5
  Thieves = {1, 2}
  Size = 3
INVARIANTS AtMostOnce RealJobs NoneLost NotHidden
