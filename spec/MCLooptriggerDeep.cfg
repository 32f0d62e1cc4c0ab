SPECIFICATION LSpec
CONSTANTS
  Model = "trigger"
  Horizon = 5
  MaxRuns = 3
  MaxTrig = 2
  MaxSig = 1
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"USR1"}
  Fmts = {"json", "yaml"}
  TrigJobs = {"a", "b"}
  Poll = 2
  Bug = ""
  Anywhere = TRUE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
