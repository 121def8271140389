SPECIFICATION Spec
CONSTANTS Ids = {0}
          Dflt = 8
          Lvls = {6}
          Pars <- ThePars
          Nms <- TheNms
          MaxB = 2
          Stats = {TRUE, FALSE}
INVARIANTS Fresh OneName Quiet
PROPERTIES Local SetWins RecWins NewLocal
CONSTRAINT Short
VIEW View
CHECK_DEADLOCK FALSE
