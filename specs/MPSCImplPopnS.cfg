SPECIFICATION Spec
CONSTANTS
  Prods = {1, 2}
  PerProd = 1
  K = "popn"
  Block = FALSE
INVARIANTS NothingLeft OneConsumer
PROPERTIES Refines Terminates
