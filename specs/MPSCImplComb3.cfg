SPECIFICATION Spec
CONSTANTS
  Prods = {1, 2, 3}
  PerProd = 1
  K = "comb"
  Block = TRUE
INVARIANTS NothingLeft OneConsumer
PROPERTIES Refines Terminates
