SPECIFICATION GSpec
CONSTANTS
  Model = "trigger"
  Horizon = 24
  MaxRuns = 30
  MaxTrig = 3
  MaxSig = 2
  MaxCrash = 2
  MaxCfg = 2
  Sigs = {"HUP", "TERM", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a", "b"}
  Poll = 4
  Rare = 5
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
CHECK_DEADLOCK FALSE
