SPECIFICATION GSpec
CONSTANTS
  Model = "trigger"
  Horizon = 24
  MaxRuns = 30
  MaxTrig = 3
  MaxSig = 4
  MaxCrash = 0
  MaxCfg = 4
  Sigs = {"HUP", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a", "b"}
  Poll = 4
  Rare = 4
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 1
  Do <- Step
CHECK_DEADLOCK FALSE
