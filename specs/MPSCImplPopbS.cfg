SPECIFICATION Spec
CONSTANTS
  Prods = {1, 2}
  PerProd = 1
  K = "popb"
  Block = TRUE
INVARIANTS NothingLeft OneConsumer
PROPERTIES Refines Terminates
