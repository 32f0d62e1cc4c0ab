SPECIFICATION Spec
CONSTANTS
  Model = "trigger"
  Horizon = 3
  MaxRuns = 2
  MaxTrig = 0
  MaxSig = 1
  MaxCrash = 1
  MaxCfg = 1
  Sigs = {"HUP"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
