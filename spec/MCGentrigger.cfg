SPECIFICATION GSpec
CONSTANTS
  Model = "trigger"
  Horizon = 20
  MaxRuns = 30
  MaxTrig = 6
  MaxSig = 3
  MaxCrash = 0
  MaxCfg = 1
  Sigs = {"USR1", "HUP", "QUIT"}
  Fmts = {"json", "yaml"}
  TrigJobs = {"a", "b"}
  Poll = 4
  Rare = 4
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 2
  Do <- Step
CHECK_DEADLOCK FALSE
