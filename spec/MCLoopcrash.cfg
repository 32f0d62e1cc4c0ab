SPECIFICATION LSpec
CONSTANTS
  Model = "trigger"
  Horizon = 4
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 1
  MaxCrash = 1
  MaxCfg = 0
  Sigs = {"TERM"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 3
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
