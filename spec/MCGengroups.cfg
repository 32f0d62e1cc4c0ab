SPECIFICATION GSpec
CONSTANTS
  Model = "groups"
  Horizon = 24
  MaxRuns = 30
  MaxTrig = 5
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 2
  Sigs = {"HUP", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a", "b"}
  Poll = 3
  Rare = 4
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
CHECK_DEADLOCK FALSE
