SPECIFICATION GSpec
CONSTANTS
  Model = "retry"
  Horizon = 40
  MaxRuns = 30
  MaxTrig = 2
  MaxSig = 2
  MaxCrash = 0
  MaxCfg = 0
  Sigs = {"USR1", "QUIT"}
  Fmts = {"json"}
  TrigJobs = {"a"}
  Poll = 6
  Rare = 6
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 2
  Do <- Step
CHECK_DEADLOCK FALSE
