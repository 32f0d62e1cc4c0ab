SPECIFICATION LSpec
CONSTANTS
  Model = "groups"
  Horizon = 5
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 1
  MaxCrash = 0
  MaxCfg = 1
  Sigs = {"HUP"}
  Fmts = {"json"}
  TrigJobs = {"b"}
  Poll = 5
  Bug = "leak"
  Anywhere = FALSE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
