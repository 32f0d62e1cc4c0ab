SPECIFICATION Spec
CONSTANTS
  Model = "trigger"
  Horizon = 4
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 1
  MaxCrash = 1
  MaxCfg = 1
  Sigs = {"HUP", "TERM"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
