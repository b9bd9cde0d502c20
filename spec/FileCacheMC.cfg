SPECIFICATION Spec
CONSTANTS Procs = {"p", "q"} Keys = {"a", "b", "c"} Files = {"f", "g"} FileOf <- MC_FileOf
  Size = 1 MaxCrash = 1 MaxOps = 3 Values = {1}
INVARIANTS Faithful Durable Homed Bounded Recent
PROPERTY Answered
CHECK_DEADLOCK FALSE
