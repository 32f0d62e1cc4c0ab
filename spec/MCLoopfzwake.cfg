SPECIFICATION LSpec
CONSTANTS
  Model = "wake"
  Horizon = 7
  MaxRuns = 3
  MaxTrig = 0
  MaxSig = 0
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {}
  Fmts = {"json"}
  TrigJobs = {}
  Poll = 5
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
