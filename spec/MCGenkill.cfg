SPECIFICATION GSpec
CONSTANTS
  Model = "kill"
  Horizon = 30
  MaxRuns = 30
  MaxTrig = 4
  MaxSig = 3
  MaxCrash = 0
  MaxCfg = 1
  Sigs = {"TERM", "INT", "HUP"}
  Fmts = {"json"}
  TrigJobs = {"a", "b"}
  Poll = 5
  Rare = 6
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 2
  Do <- Step
CHECK_DEADLOCK FALSE
