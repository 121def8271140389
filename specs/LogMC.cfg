SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2}
          Dflt = 8
          Lvls = {6}
          Pars <- ThePars
          Nms <- TheNms
          MaxB = 0
          Stats = {FALSE}
INVARIANTS Fresh OneName Quiet
PROPERTIES Local SetWins RecWins NewLocal
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
