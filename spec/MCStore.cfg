SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxRuns = 3 Faults = TRUE
INVARIANTS Recorded NeverLost Tables FinishedOnly ReaderSeesAll
