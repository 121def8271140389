SPECIFICATION Spec
CONSTANTS
  NJobs = 4
  Thieves = {1, 2}
  Size = 2
INVARIANTS AtMostOnce RealJobs NoneLost NotHidden
