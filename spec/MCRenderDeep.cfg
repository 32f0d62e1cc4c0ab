SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxRuns = 3 MaxKills = 2 MaxRegens = 1 Atomic = TRUE RunsLast = TRUE Toggle = TRUE
INVARIANTS Judged Whole1 Announced
