SPECIFICATION LSpec
CONSTANTS
  Model = "trigger"
  Horizon = 4
  MaxRuns = 2
  MaxTrig = 2
  MaxSig = 1
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"USR1"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 2
  Bug = "respawn"
  Anywhere = FALSE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
