SPECIFICATION Spec
CONSTANTS
  Model = "groups"
  Horizon = 3
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 0
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {}
  Fmts = {"json"}
  TrigJobs = {"b"}
  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
