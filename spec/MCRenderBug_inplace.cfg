SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxRuns = 2 MaxKills = 1 MaxRegens = 1 Atomic = FALSE RunsLast = TRUE Toggle = TRUE
INVARIANTS Judged Whole1 Announced
