SPECIFICATION LSpec
CONSTANTS
  Model = "kill"
  Horizon = 8
  MaxRuns = 2
  MaxTrig = 1
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"TERM", "INT"}
  Fmts = {"json"}
  TrigJobs = {"b"}
  Poll = 5
  Bug = "unmarked"
  Anywhere = FALSE
  MaxFreeze = 0
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded Prompt
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
