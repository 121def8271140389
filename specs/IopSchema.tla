---- MODULE IopSchema ----
\* generated by tools/gen_iop.py from checks/iopschema.py
EXTENDS Integers, Sequences
Sch == [
  En |-> [k |-> "enum", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {0, 1, 5, 1000},
     f |-> <<>>],
  Es |-> [k |-> "enum", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> TRUE, vals |-> {1, 2, 10},
     f |-> <<>>],
  Leaf |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Nil |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<>>],
  Opt1 |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "Leaf", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "string", r |-> "def", d |-> <<<<100, 118>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "Nil", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Un |-> [k |-> "union", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "Leaf", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "double", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "void", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "ubyte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "Nil", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "Es", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 40, ty |-> "bytes", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Us |-> [k |-> "union", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "ubyte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "byte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "bool", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Base |-> [k |-> "class", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Mid |-> [k |-> "class", id |-> 2, up |-> "Base", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "ubyte", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Kid |-> [k |-> "class", id |-> 3, up |-> "Mid", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "def", d |-> <<<<7, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "Leaf", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Kid2 |-> [k |-> "class", id |-> 300, up |-> "Base", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "string", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Abst |-> [k |-> "class", id |-> 5, up |-> "Mid", abs |-> TRUE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<>>],
  Fin |-> [k |-> "class", id |-> 65535, up |-> "Abst", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "bool", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Solo |-> [k |-> "class", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "bool", r |-> "def", d |-> <<<<1, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Scal |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "byte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "ubyte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "short", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "ushort", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "uint", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "long", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "ulong", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 9, ty |-> "bool", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 10, ty |-> "double", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 11, ty |-> "string", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 12, ty |-> "bytes", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 13, ty |-> "void", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 14, ty |-> "En", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 15, ty |-> "Es", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 16, ty |-> "Leaf", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 17, ty |-> "Un", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 18, ty |-> "Leaf", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 19, ty |-> "Us", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 20, ty |-> "Base", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 21, ty |-> "Opt1", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 22, ty |-> "Opt1", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 23, ty |-> "Solo", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Opts |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "byte", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "ubyte", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "short", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "ushort", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "uint", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "long", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "ulong", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 9, ty |-> "bool", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 10, ty |-> "double", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 11, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 12, ty |-> "bytes", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 13, ty |-> "void", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 14, ty |-> "En", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 15, ty |-> "Es", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 16, ty |-> "Leaf", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 17, ty |-> "Un", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 18, ty |-> "Us", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 19, ty |-> "Mid", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 20, ty |-> "Opt1", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 21, ty |-> "Solo", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Reps |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "byte", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "ubyte", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "short", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "ushort", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "int", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "uint", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "long", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "ulong", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 9, ty |-> "bool", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 10, ty |-> "double", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 11, ty |-> "string", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 12, ty |-> "bytes", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 13, ty |-> "En", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 14, ty |-> "Es", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 15, ty |-> "Leaf", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 16, ty |-> "Un", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 17, ty |-> "Us", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 18, ty |-> "Base", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 19, ty |-> "Opt1", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Defs |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "byte", r |-> "def", d |-> <<<<251, 255, 255, 255, 255, 255, 255, 255>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "ubyte", r |-> "def", d |-> <<<<200, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "short", r |-> "def", d |-> <<<<212, 254, 255, 255, 255, 255, 255, 255>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "ushort", r |-> "def", d |-> <<<<96, 234, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "int", r |-> "def", d |-> <<<<0, 0, 0, 128, 255, 255, 255, 255>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "uint", r |-> "def", d |-> <<<<255, 255, 255, 255, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "long", r |-> "def", d |-> <<<<0, 0, 0, 0, 0, 255, 255, 255>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "ulong", r |-> "def", d |-> <<<<1, 0, 0, 0, 0, 0, 0, 128>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 9, ty |-> "bool", r |-> "def", d |-> <<<<1, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 10, ty |-> "bool", r |-> "def", d |-> <<<<0, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 11, ty |-> "double", r |-> "def", d |-> <<<<0, 0, 0, 0, 0, 0, 248, 63>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 12, ty |-> "string", r |-> "def", d |-> <<<<102, 111, 111>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 13, ty |-> "string", r |-> "def", d |-> <<<<>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 14, ty |-> "bytes", r |-> "def", d |-> <<<<102>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 15, ty |-> "En", r |-> "def", d |-> <<<<5, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 16, ty |-> "Es", r |-> "def", d |-> <<<<2, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 17, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> TRUE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 18, ty |-> "int", r |-> "def", d |-> <<<<3, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> TRUE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 19, ty |-> "int", r |-> "rep", d |-> <<>>, pr |-> TRUE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Tags |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 29, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 30, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 31, ty |-> "int", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 254, ty |-> "Leaf", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 255, ty |-> "ubyte", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 256, ty |-> "double", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 257, ty |-> "Leaf", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 32767, ty |-> "void", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Cons |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<<<246, 255, 255, 255, 255, 255, 255, 255>>>>, mx |-> <<<<10, 0, 0, 0, 0, 0, 0, 0>>>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "ubyte", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<<<3, 0, 0, 0, 0, 0, 0, 0>>>>, mx |-> <<<<200, 0, 0, 0, 0, 0, 0, 0>>>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "long", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<<<0, 0, 0, 0, 0, 255, 255, 255>>>>, mx |-> <<<<0, 0, 0, 0, 0, 1, 0, 0>>>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "uint", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> TRUE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "string", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> TRUE, mnl |-> 0, mxl |-> 1000000000, mno |-> 1, mxo |-> 3, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 2, mxl |-> 4, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "bytes", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 3, mxl |-> 3, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 8, ty |-> "string", r |-> "def", d |-> <<<<97, 98>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<{48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 95, 97, 98, 99}>>, bad |-> <<>>],
       [tag |-> 9, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 89, 90, 92, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}>>, bad |-> <<>>],
       [tag |-> 10, ty |-> "En", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<{0, 1000}>>],
       [tag |-> 11, ty |-> "En", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<{0}>>],
       [tag |-> 12, ty |-> "Un", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<{3, 4, 6, 7, 8, 9}>>],
       [tag |-> 13, ty |-> "Es", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 14, ty |-> "Leaf", r |-> "opt", d |-> <<>>, pr |-> TRUE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 15, ty |-> "ulong", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<<<5, 0, 0, 0, 0, 0, 0, 0>>>>, mx |-> <<<<5, 0, 0, 0, 0, 0, 0, 128>>>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Deep |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "Cons", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "Tree", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "Deep", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Tree |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "Tree", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "Tree", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "Un", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Ra |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "Rb", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<<<1, 0, 0, 0, 0, 0, 0, 0>>>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Rb |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "Ra", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Cb |-> [k |-> "class", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Cc |-> [k |-> "class", id |-> 1, up |-> "Cb", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<<<3, 0, 0, 0, 0, 0, 0, 0>>>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Cf |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "Cb", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  V1 |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "int", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "short", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  V2 |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "long", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "Leaf", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 4, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 5, ty |-> "int", r |-> "def", d |-> <<<<9, 0, 0, 0, 0, 0, 0, 0>>>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 7, ty |-> "Tree", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 300, ty |-> "Opt1", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  V3 |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "byte", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 6, ty |-> "ushort", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Priv |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "PrivC", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "Defs", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  Cdat |-> [k |-> "struct", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "string", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> TRUE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "string", r |-> "rep", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> TRUE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 3, ty |-> "string", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  PrivB |-> [k |-> "class", id |-> 0, up |-> "", abs |-> FALSE, pr |-> FALSE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "req", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>],
  PrivC |-> [k |-> "class", id |-> 7, up |-> "PrivB", abs |-> FALSE, pr |-> TRUE, strict |-> FALSE, vals |-> {},
     f |-> <<[tag |-> 1, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> FALSE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>],
       [tag |-> 2, ty |-> "int", r |-> "opt", d |-> <<>>, pr |-> TRUE, mn |-> <<>>, mx |-> <<>>, nz |-> FALSE, ne |-> FALSE, mnl |-> 0, mxl |-> 1000000000, mno |-> 0, mxo |-> 1000000000, cd |-> FALSE, pat |-> <<>>, bad |-> <<>>]>>]
]
\* names of the types, of their fields (in the same order) and of the values of enumerations
TyName == [En |-> <<69, 110>>,
  Es |-> <<69, 115>>,
  Leaf |-> <<76, 101, 97, 102>>,
  Nil |-> <<78, 105, 108>>,
  Opt1 |-> <<79, 112, 116, 49>>,
  Un |-> <<85, 110>>,
  Us |-> <<85, 115>>,
  Base |-> <<66, 97, 115, 101>>,
  Mid |-> <<77, 105, 100>>,
  Kid |-> <<75, 105, 100>>,
  Kid2 |-> <<75, 105, 100, 50>>,
  Abst |-> <<65, 98, 115, 116>>,
  Fin |-> <<70, 105, 110>>,
  Solo |-> <<83, 111, 108, 111>>,
  Scal |-> <<83, 99, 97, 108>>,
  Opts |-> <<79, 112, 116, 115>>,
  Reps |-> <<82, 101, 112, 115>>,
  Defs |-> <<68, 101, 102, 115>>,
  Tags |-> <<84, 97, 103, 115>>,
  Cons |-> <<67, 111, 110, 115>>,
  Deep |-> <<68, 101, 101, 112>>,
  Tree |-> <<84, 114, 101, 101>>,
  Ra |-> <<82, 97>>,
  Rb |-> <<82, 98>>,
  Cb |-> <<67, 98>>,
  Cc |-> <<67, 99>>,
  Cf |-> <<67, 102>>,
  V1 |-> <<86, 49>>,
  V2 |-> <<86, 50>>,
  V3 |-> <<86, 51>>,
  Priv |-> <<80, 114, 105, 118>>,
  Cdat |-> <<67, 100, 97, 116>>,
  PrivB |-> <<80, 114, 105, 118, 66>>,
  PrivC |-> <<80, 114, 105, 118, 67>>]
FdName == [En |-> <<>>,
  Es |-> <<>>,
  Leaf |-> <<<<97>>, <<115>>>>,
  Nil |-> <<>>,
  Opt1 |-> <<<<97>>, <<108>>, <<115>>, <<110>>>>,
  Un |-> <<<<105>>, <<115>>, <<108>>, <<100>>, <<118>>, <<98>>, <<110>>, <<101>>, <<120>>>>,
  Us |-> <<<<97>>, <<98>>, <<99>>>>,
  Base |-> <<<<98>>, <<110>>>>,
  Mid |-> <<<<109>>>>,
  Kid |-> <<<<107>>, <<108>>>>,
  Kid2 |-> <<<<116>>>>,
  Abst |-> <<>>,
  Fin |-> <<<<102>>>>,
  Solo |-> <<<<97>>, <<98>>>>,
  Scal |-> <<<<105, 56>>, <<117, 56>>, <<105, 49, 54>>, <<117, 49, 54>>, <<105, 51, 50>>, <<117, 51, 50>>, <<105, 54, 52>>, <<117, 54, 52>>, <<98>>, <<100>>, <<115>>, <<120>>, <<118>>, <<101>>, <<101, 115>>, <<108>>, <<117>>, <<108, 114>>, <<117, 114>>, <<111>>, <<112>>, <<112, 114>>, <<115, 111>>>>,
  Opts |-> <<<<105, 56>>, <<117, 56>>, <<105, 49, 54>>, <<117, 49, 54>>, <<105, 51, 50>>, <<117, 51, 50>>, <<105, 54, 52>>, <<117, 54, 52>>, <<98>>, <<100>>, <<115>>, <<120>>, <<118>>, <<101>>, <<101, 115>>, <<108>>, <<117>>, <<117, 115>>, <<111>>, <<112>>, <<115, 111>>>>,
  Reps |-> <<<<105, 56>>, <<117, 56>>, <<105, 49, 54>>, <<117, 49, 54>>, <<105, 51, 50>>, <<117, 51, 50>>, <<105, 54, 52>>, <<117, 54, 52>>, <<98>>, <<100>>, <<115>>, <<120>>, <<101>>, <<101, 115>>, <<108>>, <<117>>, <<117, 115>>, <<111>>, <<112>>>>,
  Defs |-> <<<<105, 56>>, <<117, 56>>, <<105, 49, 54>>, <<117, 49, 54>>, <<105, 51, 50>>, <<117, 51, 50>>, <<105, 54, 52>>, <<117, 54, 52>>, <<98>>, <<98, 102>>, <<100>>, <<115>>, <<115, 101>>, <<120>>, <<101>>, <<101, 115>>, <<122>>, <<122, 100>>, <<122, 114>>>>,
  Tags |-> <<<<116, 49>>, <<116, 50, 57>>, <<116, 51, 48>>, <<116, 51, 49>>, <<116, 50, 53, 52>>, <<116, 50, 53, 53>>, <<116, 50, 53, 54>>, <<116, 50, 53, 55>>, <<116, 51, 50, 55, 54, 55>>>>,
  Cons |-> <<<<109, 110>>, <<109, 120>>, <<109, 108>>, <<110, 122>>, <<110, 101>>, <<108, 110>>, <<108, 101>>, <<112, 116>>, <<112, 110>>, <<97, 108>>, <<100, 97>>, <<117, 97>>, <<101, 115>>, <<108, 112>>, <<117, 109>>>>,
  Deep |-> <<<<99>>, <<116>>, <<100>>>>,
  Tree |-> <<<<118>>, <<107, 105, 100, 115>>, <<110, 101, 120, 116>>, <<117>>>>,
  Ra |-> <<<<98>>, <<99>>>>,
  Rb |-> <<<<97>>, <<122>>>>,
  Cb |-> <<<<122>>>>,
  Cc |-> <<<<109>>>>,
  Cf |-> <<<<111>>>>,
  V1 |-> <<<<97>>, <<115>>, <<114>>, <<119>>>>,
  V2 |-> <<<<97>>, <<115>>, <<110>>, <<114>>, <<100>>, <<119>>, <<116>>, <<111>>>>,
  V3 |-> <<<<97>>, <<119>>>>,
  Priv |-> <<<<97>>, <<99>>, <<100>>>>,
  Cdat |-> <<<<99>>, <<99, 115>>, <<115>>>>,
  PrivB |-> <<<<97>>>>,
  PrivC |-> <<<<98>>, <<112>>>>]
EnName == [En |-> <<<<0, <<65>>>>, <<1, <<66>>>>, <<5, <<67>>>>, <<1000, <<68>>>>>>,
  Es |-> <<<<1, <<88>>>>, <<2, <<89>>>>, <<10, <<90>>>>>>]
\* texts of the XML form
XsiType == [byte |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 98, 121, 116, 101, 34>>,
  ubyte |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 117, 110, 115, 105, 103, 110, 101, 100, 66, 121, 116, 101, 34>>,
  short |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 115, 104, 111, 114, 116, 34>>,
  ushort |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 117, 110, 115, 105, 103, 110, 101, 100, 83, 104, 111, 114, 116, 34>>,
  int |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 105, 110, 116, 34>>,
  uint |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 117, 110, 115, 105, 103, 110, 101, 100, 73, 110, 116, 34>>,
  long |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 108, 111, 110, 103, 34>>,
  ulong |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 117, 110, 115, 105, 103, 110, 101, 100, 76, 111, 110, 103, 34>>,
  bool |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 98, 111, 111, 108, 101, 97, 110, 34>>,
  double |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 100, 111, 117, 98, 108, 101, 34>>,
  string |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 115, 116, 114, 105, 110, 103, 34>>,
  bytes |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 120, 115, 100, 58, 98, 97, 115, 101, 54, 52, 66, 105, 110, 97, 114, 121, 34>>]
Txt == [xn |-> <<32, 120, 115, 105, 58, 116, 121, 112, 101, 61, 34, 110, 58, 118, 112, 116, 46>>,
  nil |-> <<32, 120, 115, 105, 58, 110, 105, 108, 61, 34, 116, 114, 117, 101, 34>>,
  cdo |-> <<60, 33, 91, 67, 68, 65, 84, 65, 91>>,
  cdc |-> <<93, 93, 62>>,
  cdx |-> <<93, 93, 93, 93, 62, 60, 33, 91, 67, 68, 65, 84, 65, 91, 62>>,
  amp |-> <<38, 97, 109, 112, 59>>,
  lt |-> <<38, 108, 116, 59>>,
  gt |-> <<38, 103, 116, 59>>,
  ap |-> <<38, 35, 51, 57, 59>>,
  qu |-> <<38, 35, 51, 52, 59>>,
  vpt |-> <<118, 112, 116, 46>>,
  tru |-> <<116, 114, 117, 101>>,
  fal |-> <<102, 97, 108, 115, 101>>]
B64 == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 43, 47>>
\* texts and values of doubles; whether it is the text written for that value
Dbls == {<<<<49, 46, 53>>, <<0, 0, 0, 0, 0, 0, 248, 63>>, TRUE>>,
  <<<<48, 46, 53>>, <<0, 0, 0, 0, 0, 0, 224, 63>>, TRUE>>,
  <<<<45, 49, 46, 50, 53>>, <<0, 0, 0, 0, 0, 0, 244, 191>>, TRUE>>,
  <<<<49, 46, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49, 101, 43, 51, 48, 48>>, <<156, 117, 0, 136, 60, 228, 55, 126>>, TRUE>>,
  <<<<45, 51>>, <<0, 0, 0, 0, 0, 0, 8, 192>>, TRUE>>,
  <<<<49>>, <<0, 0, 0, 0, 0, 0, 240, 63>>, TRUE>>,
  <<<<52, 46, 57, 52, 48, 54, 53, 54, 52, 53, 56, 52, 49, 50, 52, 54, 53, 52, 101, 45, 51, 50, 52>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, TRUE>>,
  <<<<49, 48, 48, 48, 48, 48>>, <<0, 0, 0, 0, 0, 106, 248, 64>>, TRUE>>,
  <<<<48, 46, 49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 49>>, <<154, 153, 153, 153, 153, 153, 185, 63>>, TRUE>>,
  <<<<57, 48, 48, 55, 49, 57, 57, 50, 53, 52, 55, 52, 48, 57, 57, 49>>, <<255, 255, 255, 255, 255, 255, 63, 67>>, TRUE>>,
  <<<<49, 46, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 56, 101, 43, 49, 55>>, <<53, 15, 99, 186, 180, 105, 123, 67>>, TRUE>>,
  <<<<45, 57, 46, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 101, 43, 49, 56>>, <<0, 0, 0, 0, 0, 0, 224, 195>>, TRUE>>,
  <<<<48, 46, 51, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 52>>, <<52, 51, 51, 51, 51, 51, 211, 63>>, TRUE>>,
  <<<<49, 46, 55, 57, 55, 54, 57, 51, 49, 51, 52, 56, 54, 50, 51, 49, 53, 55, 101, 43, 51, 48, 56>>, <<255, 255, 255, 255, 255, 255, 239, 127>>, TRUE>>,
  <<<<48, 46, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 51, 49>>, <<85, 85, 85, 85, 85, 85, 213, 63>>, TRUE>>,
  <<<<49, 101, 43, 50, 50>>, <<146, 213, 77, 6, 207, 240, 128, 68>>, TRUE>>,
  <<<<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<0, 0, 0, 0, 0, 0, 224, 65>>, TRUE>>,
  <<<<52, 50, 57, 52, 57, 54, 55, 50, 57, 53, 46, 53>>, <<0, 0, 240, 255, 255, 255, 239, 65>>, TRUE>>,
  <<<<45, 48, 46, 48, 48, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>, <<65, 24, 17, 190, 133, 46, 32, 191>>, TRUE>>,
  <<<<73, 78, 70>>, <<0, 0, 0, 0, 0, 0, 240, 127>>, TRUE>>,
  <<<<45, 73, 78, 70>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, TRUE>>,
  <<<<50>>, <<0, 0, 0, 0, 0, 0, 0, 64>>, FALSE>>,
  <<<<43, 49, 101, 50>>, <<0, 0, 0, 0, 0, 0, 89, 64>>, FALSE>>,
  <<<<45, 48, 46, 49, 50, 53>>, <<0, 0, 0, 0, 0, 0, 192, 191>>, FALSE>>,
  <<<<46, 53>>, <<0, 0, 0, 0, 0, 0, 224, 63>>, FALSE>>,
  <<<<53, 46>>, <<0, 0, 0, 0, 0, 0, 20, 64>>, FALSE>>,
  <<<<49, 101, 45, 51>>, <<252, 169, 241, 210, 77, 98, 80, 63>>, FALSE>>,
  <<<<49, 50, 51, 52, 53, 54, 55, 56, 46, 50, 53>>, <<0, 0, 0, 200, 41, 140, 103, 65>>, FALSE>>}
====
