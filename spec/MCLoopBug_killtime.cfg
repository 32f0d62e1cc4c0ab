SPECIFICATION LSpec
CONSTANTS
  Model = "kill"
  Horizon = 8
  MaxRuns = 2
  MaxTrig = 0
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"TERM", "INT"}
  Fmts = {"json"}
  TrigJobs = {"b"}
  Poll = 5
  Bug = "killtime"
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
INVARIANTS Conforms InStep Accounted NothingInShutdown SigOnce KillAfterTerm ExitRecorded
PROPERTIES StartLimitsP HistoryGrowsP RunsSurviveP
