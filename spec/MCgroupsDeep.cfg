SPECIFICATION Spec
CONSTANTS
  Model = "groups"
  Horizon = 4
  MaxRuns = 3
  MaxTrig = 2
  MaxSig = 0
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {}
  Fmts = {"json"}
  TrigJobs = {"b"}
  Poll = 2
INVARIANTS Accounted OneRecurring PendOfKnownJobs NonConcPend NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
