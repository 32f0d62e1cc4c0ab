SPECIFICATION GSpec
CONSTANTS
  Model = "mix"
  Horizon = 30
  MaxRuns = 40
  MaxTrig = 6
  MaxSig = 4
  MaxCrash = 1
  MaxCfg = 2
  Sigs = {"HUP", "QUIT", "TERM"}
  Fmts = {"json"}
  TrigJobs = {"a", "b", "c"}
  Poll = 4
  Rare = 6
  Bug = ""
  Anywhere = FALSE
  MaxFreeze = 2
  Do <- Step
CHECK_DEADLOCK FALSE
