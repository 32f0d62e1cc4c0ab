SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxRuns = 4 Faults = TRUE
INVARIANTS Recorded NeverLost Tables FinishedOnly ReaderSeesAll
