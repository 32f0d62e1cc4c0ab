SPECIFICATION LSpec
CONSTANTS
  Model = "trigger"
  Horizon = 5
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 1
  Sigs = {"HUP", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 3
  Bug = ""
  Anywhere = TRUE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
