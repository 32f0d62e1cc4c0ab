SPECIFICATION LSpec
CONSTANTS
  Model = "trigger"
  Horizon = 4
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 1
  MaxCrash = 0
  MaxCfg = 1
  Sigs = {"HUP", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 2
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
