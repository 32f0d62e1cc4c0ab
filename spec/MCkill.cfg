SPECIFICATION Spec
CONSTANTS
  Model = "kill"
  Horizon = 7
  MaxRuns = 1
  MaxTrig = 0
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"TERM"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
