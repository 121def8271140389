SPECIFICATION Spec
CONSTANTS
  Prods = {1, 2}
  PerProd = 2
  K = "popb"
  Block = TRUE
INVARIANTS NothingLeft OneConsumer
PROPERTIES Refines Terminates
