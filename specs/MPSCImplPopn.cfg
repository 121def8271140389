SPECIFICATION Spec
CONSTANTS
  Prods = {1, 2}
  PerProd = 2
  K = "popn"
  Block = FALSE
INVARIANTS NothingLeft OneConsumer
PROPERTIES Refines Terminates
